"""P24: checker constructors grant exactly what they are told."""
import collections
import copy
import types

from common import *  # noqa
from zope.interface import Attribute
from zope.interface import Interface
from zope.interface.interface import InterfaceClass
from zope.schema import TextLine


class PermissionObject:
    """Permissions need not be strings."""

    def __init__(self, name):
        self.name = name

    def __bool__(self):
        return False

    def __repr__(self):
        return 'P(%s)' % self.name


class EqualPermission(PermissionObject):
    """Equal to any other permission, yet another one."""

    def __eq__(self, other):
        return True
    __hash__ = None


PERMS = ['p0', 'p1', 'p2', 'zope.Public', '', PermissionObject('a'),
         PermissionObject('b'), EqualPermission('c'), EqualPermission('d'),
         7, None, CheckerPublic, CheckerPublic]


class DictLike:
    def __init__(self, d):
        self.d = d

    def items(self):
        return iter(list(self.d.items()))


class SpecTuple(tuple):
    pass


Spec = collections.namedtuple('Spec', 'names permission')


class NamesList(list):
    """Counts as false."""

    def __bool__(self):
        return False


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        k = rng.choice([2, 4, 8, 30, 200])
        self.names = sorted({random_name(rng) for i in range(k)})
        self.idents = [n for n in self.names if n.isidentifier()
                       and n not in ('interface', 'names', 'permission_id')] \
            or ['x']
        self.perms = rng.sample(PERMS, rng.choice([1, 2, 4]))
        self.ifaces = []
        for i in range(rng.choice([1, 3, 6])):
            self.define_interface(i)
        self.what = None

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; %s' % (msg, self.what))

    def define_interface(self, i):
        rng = self.rng
        bases = rng.sample(self.ifaces, min(len(self.ifaces),
                                            rng.choice([0, 1, 1, 2, 3])))
        attrs = {}
        # (some names have a meaning for interfaces)
        idents = [n for n in self.idents if n not in (
            '__doc__', '__module__', '__qualname__', '__annotations__',
            '__interface_tagged_values__', '__adapt__', '__static_attributes__',
            '__classcell__', '__firstlineno__')]
        for n in rng.sample(idents, min(len(idents),
                                        rng.choice([0, 1, 2, 4]))):
            def f():
                pass
            attrs[n] = rng.choice([
                lambda: Attribute(n), lambda: TextLine(title='x'),
                lambda: TextLine(title='x', readonly=True),
                lambda: f])()
        try:
            iface = InterfaceClass('I%d' % i, tuple(bases) or (Interface,),
                                   dict(attrs), __module__='verif')
        except TypeError:       # no consistent order of the bases
            return self.define_interface(i)
        iface.verif_names = set(attrs)
        for b in bases:
            iface.verif_names |= b.verif_names
        self.ifaces.append(iface)

    # -- arguments ------------------------------------------------------------------

    def some_names(self):
        rng = self.rng
        pool = self.names
        n = rng.choice([0, 1, 2, 3, len(pool)])
        return [rng.choice(pool) for i in range(n)]

    def sequence(self):
        """(argument, the names, a way to change the argument)"""
        rng = self.rng
        names = self.some_names()
        r = rng.randrange(9)
        if r == 0:
            return tuple(names), names, None
        if r == 1:
            x = set(names)
            return x, names, lambda: x.add('added')
        if r == 2:
            return (n for n in names), names, None
        if r == 3:
            return iter(names), names, None
        if r == 4:
            x = dict.fromkeys(names, 'p9')
            return x, names, lambda: x.clear()
        if r == 5:
            return frozenset(names), names, None
        if r == 6:
            s = rng.choice(['', 'ab', 'aa', 'x'])
            return s, list(s), None
        if r == 7:
            x = NamesList(names)
            return x, names, lambda: x.append('added')
        x = list(names)
        return x, names, lambda: (x.append('added'), x.reverse())

    def mapping(self):
        rng = self.rng
        d = {n: rng.choice(self.perms) for n in self.some_names()}
        r = rng.randrange(5)
        if r == 0:
            return DictLike(d), dict(d), lambda: d.clear()
        if r == 1:
            return types.MappingProxyType(d), dict(d), lambda: d.clear()
        if r == 2:
            x = collections.OrderedDict(d)
            return x, dict(d), lambda: x.clear()
        if r == 3:
            x = collections.UserDict(d)
            return x, dict(d), lambda: x.clear()
        return d, dict(d), lambda: d.update(added='p9')

    def keywords(self):
        rng = self.rng
        if rng.random() < .5:
            return {}
        return {rng.choice(self.idents): rng.choice(self.perms)
                for i in range(rng.choice([1, 2, 5]))}

    # -- cases --------------------------------------------------------------------------

    def one(self):
        rng = self.rng
        kind = rng.choice(['names', 'interface', 'multi', 'multi', 'plain'])
        if kind == 'plain':
            return self.plain()
        grants, make, changes, originals = getattr(self, 'make_' + kind)()
        self.ctx.count(kind)
        table = {}
        conflicts = set()
        for name, p in grants:
            if name in table and table[name] is not p:
                conflicts.add(name)
            table[name] = p
        self.what = '%s %r' % (kind, grants[:8])
        before = [copy.copy(o) for o in originals]
        how, checker = outcome(make)
        for o, b in zip(originals, before):
            if o != b or type(o) is dict and list(o) != list(b):
                self.bad('modified', 'an argument was changed')
        self.ctx.seen((kind, len(grants) > 3, bool(conflicts), how,
                       len(table) % 16,
                       tuple(sorted({str(p)[:6] for p in table.values()}))))
        if conflicts:
            self.ctx.count('conflicts')
            if how != 'raise' or type(checker) is not Z.DuplicationError:
                return self.bad('conflict', 'conflicts for %r, but: %s %r'
                                % (sorted(conflicts), how, checker))
            if checker.args[0] not in conflicts:
                self.bad('conflict-name', 'conflicts for %r, but: %r'
                         % (sorted(conflicts), checker))
            return
        if how != 'ok':
            return self.bad('raised', 'raised %r' % checker)
        self.judge(checker, table)
        for change in changes:
            if change is not None:
                change()
        self.judge(checker, table)
        # a checker has its tables for itself
        self.ctx.count('checkers')
        how, again = outcome(make)
        if how == 'ok':
            again.get_permissions['added.later'] = 'p9'
            again.set_permissions['added.later'] = 'p9'
            self.judge(checker, table)
        checker.get_permissions['added.later'] = 'p8'
        checker.set_permissions['added.later'] = 'p8'
        how, again = outcome(make)
        if how == 'ok' and ('added.later' in again.get_permissions
                            or 'added.later' in again.set_permissions):
            self.bad('shared', 'two checkers share a table')

    def judge(self, checker, table):
        if type(checker) is not Z.Checker:
            self.bad('type', 'not a checker: %r' % checker)
        get, set = checker.get_permissions, checker.set_permissions
        if set:
            self.bad('writable', 'the write table has %r' % set)
        if sorted(get) != sorted(table):
            return self.bad('names', 'grants %r, should be %r' % (
                sorted(get)[:20], sorted(table)[:20]))
        for name, p in table.items():
            if get[name] is not p:
                self.bad('permission', '%r has %r, should have %r' % (
                    name, get[name], p))
            if checker.permission_id(name) is not p:
                self.bad('permission-id', '%r has %r, should have %r' % (
                    name, checker.permission_id(name), p))
            if checker.setattr_permission_id(name) is not None:
                self.bad('writable', '%r can be set' % name)
        self.access(checker, table)

    def access(self, checker, table):
        rng = self.rng
        obj = object()
        for i in range(4):
            name = rng.choice(self.names + self.idents)
            p = table.get(name)
            asked = []
            inter = Interaction(lambda q, o: asked.append(q) or False)
            set_interaction(inter)
            try:
                how, e = outcome(checker.check, obj, name)
                how2, e2 = outcome(checker.check_setattr, obj, name)
            finally:
                clear_interaction()
            got = 'ok' if how == 'ok' else type(e).__name__
            if p is CheckerPublic or p is None and (
                    name in ALWAYS_READABLE or name == '__iter__'):
                want = 'ok'
            elif p is None:
                want = 'ForbiddenAttribute'
            else:
                want = 'Unauthorized'
            self.ctx.count('access_' + want)
            if got != want or [id(q) for q in asked] != (
                    [id(p)] if want == 'Unauthorized' else []):
                self.bad('access', '%r: %s and asked %r, should be %s, %r'
                         % (name, got, asked, want, p))
            if how2 != 'raise' or type(e2) is not ForbiddenAttribute:
                self.bad('writable', '%r: %s %r' % (name, how2, e2))

    def make_names(self):
        rng = self.rng
        if rng.random() < .05:
            return [], Z.NamesChecker, [], []
        seq, names, change = self.sequence()
        consumed = not hasattr(seq, '__len__')
        given = seq
        kw = self.keywords()
        kw.pop('names', None)
        kw.pop('permission_id', None)
        p = rng.choice(self.perms)
        grants = list(kw.items())

        def arg():
            return iter(list(names)) if consumed else given
        if rng.random() < .2:
            grants += [(n, CheckerPublic) for n in names]
            return grants, lambda: Z.NamesChecker(arg(), **kw), \
                [change, lambda: kw.clear()], [kw] + safe(given)
        grants += [(n, p) for n in names]
        if rng.random() < .3:
            return (grants, lambda: Z.NamesChecker(
                names=arg(), permission_id=p, **kw),
                [change, lambda: kw.clear()], [kw] + safe(given))
        return grants, lambda: Z.NamesChecker(arg(), p, **kw), \
            [change, lambda: kw.clear()], [kw] + safe(given)

    def make_interface(self):
        rng = self.rng
        iface = rng.choice(self.ifaces)
        kw = self.keywords()
        kw.pop('interface', None)
        kw.pop('permission_id', None)
        kw.pop('names', None)
        grants = list(kw.items())
        if rng.random() < .2:
            grants += [(n, CheckerPublic) for n in iface.verif_names]
            return grants, lambda: Z.InterfaceChecker(iface, **kw), [], [kw]
        p = rng.choice(self.perms)
        grants += [(n, p) for n in iface.verif_names]
        return grants, lambda: Z.InterfaceChecker(iface, p, **kw), [], [kw]

    def make_multi(self):
        rng = self.rng
        specs, grants, changes, originals = [], [], [], []
        for i in range(rng.choice([0, 1, 2, 3, 6])):
            r = rng.random()
            if r < .35:
                arg, d, change = self.mapping()
                specs.append(lambda arg=arg: arg)
                grants += list(d.items())
                if type(arg) is dict:
                    originals.append(arg)
            elif r < .65:
                seq, names, change = self.sequence()
                p = rng.choice(self.perms)
                make = rng.choice([lambda n, p: (n, p), Spec,
                                   lambda n, p: SpecTuple((n, p))])
                if hasattr(seq, '__len__'):
                    specs.append(lambda make=make, seq=seq, p=p:
                                 make(seq, p))
                    originals += safe(seq)
                else:
                    specs.append(lambda make=make, names=names, p=p:
                                 make(iter(names), p))
                grants += [(n, p) for n in names]
            else:
                iface = rng.choice(self.ifaces)
                p = rng.choice(self.perms)
                specs.append(lambda iface=iface, p=p: (iface, p))
                grants += [(n, p) for n in iface.verif_names]
                change = None
            changes.append(change)
        how = rng.choice([list, tuple, iter])

        def make():
            return Z.MultiChecker(how([s() for s in specs]))
        return grants, make, changes, originals

    def plain(self):
        """The checker itself."""
        rng = self.rng
        self.ctx.count('plain')
        d = {n: rng.choice(self.perms) for n in self.some_names()}
        if rng.random() < .3:
            d = collections.OrderedDict(d)
        s = {n: rng.choice(self.perms) for n in self.some_names()}
        wrong = [[], (), 'x', 5, collections.UserDict(d), DictLike(d),
                 types.MappingProxyType(d), lambda n: None, set(),
                 Proxy({}, Z.NamesChecker(['get', '__class__']))]
        bad = rng.choice(wrong)
        self.what = 'plain %r' % type(bad)
        for f in (lambda: Z.Checker(bad), lambda: Z.Checker(bad, s),
                  lambda: Z.Checker(d, bad), lambda: Z.Checker(None, s),
                  lambda: Z.Checker(get_permissions=d, set_permissions=bad)):
            if is_proxy(bad) and self.ctx.pure:
                break           # its class says it is one
            how, e = outcome(f)
            if how != 'raise' or type(e) is not TypeError:
                self.bad('accepted', 'tables that are no dictionaries: '
                         '%s %r' % (how, e))
        c = Z.Checker(d)
        if c.get_permissions is not d or c.set_permissions != {}:
            self.bad('tables', 'the checker does not use the dictionary')
        c = Z.Checker(d, s)
        if c.get_permissions is not d or c.set_permissions is not s:
            self.bad('tables', 'the checker does not use the dictionaries')
        c = Z.Checker(set_permissions=s, get_permissions=d)
        if c.get_permissions is not d or c.set_permissions is not s:
            self.bad('tables', 'the checker does not use the dictionaries')
        name = rng.choice(self.names)
        p = rng.choice(PERMS)
        d[name] = s[name] = p
        if c.permission_id(name) is not p or \
                c.setattr_permission_id(name) is not p:
            self.bad('tables', 'the checker does not see changes')
        c1, c2 = Z.Checker(d), Z.Checker(d)
        c1.set_permissions['x'] = 1
        if c2.set_permissions or c1.set_permissions != {'x': 1}:
            self.bad('shared', 'two checkers share their write table')
        self.ctx.seen(('plain', type(bad).__name__, len(d) % 16))


def safe(x):
    """What can be compared afterwards."""
    return [x] if isinstance(x, (list, set, dict)) else []


def one(ctx, rng):
    w = World(ctx, rng)
    for i in range(8):
        w.one()
    ctx.sample(w.what)


def run(ctx):
    for i, rng in ctx.cases('constructors', 5000, 120000):
        with ctx.case():
            one(ctx, rng)
