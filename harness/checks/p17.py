"""P17: protecting a class changes exactly that.

A random history of protectName, protectSetAttribute, protectLikeUnto,
protectModule and of definitions made otherwise; a shadow of all permission
tables is kept, and after each step every table of every class, and what
proxies (most of them made long before) let through, must agree with it."""
from common import *  # noqa
import types
import zope.component.testing
from zope.security import protectclass as PC
from zope.security import metaconfigure as MC
from zope.security.interfaces import PUBLIC_PERMISSION_NAME


class BoolChecker(Z.Checker):
    """A checker that counts as false, which must not matter."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqChecker(Z.Checker):
    def __eq__(self, other):
        return True
    __hash__ = None


class FalsyMeta(type):
    def __bool__(cls):
        return False

    def __len__(cls):
        return 0


class NamedMeta(type):
    """All classes look alike."""

    def __repr__(cls):
        return 'same'

    def __getattribute__(cls, name):
        if name in ('__name__', '__qualname__'):
            return 'same'
        return type.__getattribute__(cls, name)


class MyDict(dict):
    pass


PERMS = ['p0', 'p1', 'p2', 'p3', 'a.very.long.permission.id', '', 'Public',
         'zope.public', 'zope.Public ', 'zope.View']
SLOT = object()


def new_class(rng, made, i):
    kind = rng.randrange(7)
    name = rng.choice(['C', 'C', 'D%d' % i])
    if kind == 0 and made:
        bases = (rng.choice(made),)
        if not isinstance(bases[0], type) or bases[0] in (list, int):
            bases = (object,)
        try:
            return types.new_class(name, bases)
        except TypeError:
            return types.new_class(name)
    if kind == 1:
        return FalsyMeta(name, (), {})
    if kind == 2:
        return NamedMeta(name, (), {})
    if kind == 3:
        return types.ModuleType('verif_module_' + name)
    return type(name, (), {})


class Shadow:
    def __init__(self):
        self.get = {}
        self.set = {}


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.classes = []
        for i in range(rng.choice([2, 3, 5])):
            self.classes.append(new_class(rng, self.classes, i))
        self.names = [random_name(rng) for i in range(rng.choice([2, 4, 7, 7, 40]))]
        self.names = sorted(set(self.names) | {'x', '__call__'})
        self.checkers = {}      # class -> checker object
        self.tables = {}        # id(dict) -> (dict, shadow dict)
        self.proxies = []       # (class, object, proxy)
        self.grant = {'p0', 'p1', ''}
        self.inter = Interaction(lambda p, o: p in self.grant)
        self.log = []
        self.n = 0

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; after %r' % (msg, self.log[-12:]))

    # -- the model ----------------------------------------------------------

    def shadow_of(self, d):
        if id(d) not in self.tables:
            self.tables[id(d)] = (d, dict(d))
        return self.tables[id(d)][1]

    def name(self):
        return self.rng.choice(self.names)

    def permission(self):
        """(what is given, what must be stored)"""
        r = self.rng.random()
        if r < .15:
            return CheckerPublic, CheckerPublic
        if r < .3:
            # an equal string, but another one
            return ''.join(list(PUBLIC_PERMISSION_NAME)), CheckerPublic
        if r < .35:
            return None, None
        p = self.rng.choice(PERMS)
        return p, p

    def step(self):
        rng = self.rng
        self.n += 1
        cls = rng.choice(self.classes)
        r = rng.random()
        if r < .5:
            self.protect(cls, rng.choice(['get', 'set', 'module']))
        elif r < .72:
            self.like(cls, rng.choice(self.classes))
        elif r < .8:
            self.define(cls)
        elif r < .85:
            self.undefine(cls)
        elif r < .9:
            self.direct(cls)
        self.make_proxy(rng.choice(self.classes))
        self.verify()

    def ensure(self, cls):
        """The checker that cls has, or is to get now."""
        if cls in self.checkers:
            return
        checker = Z.getCheckerForInstancesOf(cls)
        if checker is None:
            self.bad('no-checker', 'class got no checker')
            return
        if type(checker) is not Z.Checker:
            self.bad('checker-type', 'class got %r' % checker)
        for other, c in self.checkers.items():
            if c is checker:
                self.bad('shared-checker', 'class got the checker of another')
        for what in ('get_permissions', 'set_permissions'):
            d = getattr(checker, what)
            if id(d) in self.tables:
                self.bad('shared-table', 'a new checker shares a table')
            self.tables[id(d)] = (d, {})
        self.checkers[cls] = checker

    def protect(self, cls, kind):
        name = self.name()
        given, stored = self.permission()
        if kind == 'module' and not isinstance(cls, types.ModuleType):
            kind = 'get'
        self.log.append(('protect', kind, self.classes.index(cls), name,
                         given))
        func = {'get': PC.protectName, 'set': PC.protectSetAttribute,
                'module': MC.protectModule}[kind]
        if self.rng.random() < .1:
            result = func(**{'module' if kind == 'module' else 'class_': cls,
                             'name': name, 'permission': given})
        else:
            result = func(cls, name, given)
        if result is not None:
            self.bad('result', 'protect gave %r' % result)
        self.ensure(cls)
        checker = self.checkers[cls]
        d = checker.set_permissions if kind == 'set' \
            else checker.get_permissions
        self.shadow_of(d)[name] = stored
        self.ctx.count('protect_' + kind)

    def like(self, cls, model):
        self.log.append(('like', self.classes.index(cls),
                         self.classes.index(model)))
        PC.protectLikeUnto(cls, model)
        self.ctx.count('like')
        if model not in self.checkers:
            self.ctx.count('like_undeclared')
            return
        if cls is not model:
            self.ensure(cls)
        mine, other = self.checkers[cls], self.checkers[model]
        for what in ('get_permissions', 'set_permissions'):
            theirs = dict(self.shadow_of(getattr(other, what)))
            self.shadow_of(getattr(mine, what)).update(theirs)
            if theirs:
                self.ctx.count('like_copied')

    def define(self, cls):
        """A definition made otherwise."""
        if cls in self.checkers:
            return
        rng = self.rng
        get = {n: rng.choice(PERMS + [CheckerPublic]) for n in self.names
               if rng.random() < .4}
        set = {n: rng.choice(PERMS + [CheckerPublic]) for n in self.names
               if rng.random() < .4}
        if rng.random() < .2:
            get, set = MyDict(get), MyDict(set)
        how = rng.randrange(7)
        if how == 0:
            checker = Z.NamesChecker(list(get), 'p0')
        elif how == 1:
            checker = Z.Checker(get)
        elif how == 2:
            checker = BoolChecker(get, set)
        elif how == 3:
            checker = EqChecker(get, set)
        elif how == 4 and self.checkers:
            checker = self.checkers[rng.choice(list(self.checkers))]
        elif how == 5 and self.checkers:
            c = self.checkers[rng.choice(list(self.checkers))]
            checker = Z.Checker(c.get_permissions, set)
        else:
            checker = Z.Checker(get, set)
        self.log.append(('define', how, self.classes.index(cls)))
        Z.defineChecker(cls, checker)
        self.checkers[cls] = checker
        self.shadow_of(checker.get_permissions)
        self.shadow_of(checker.set_permissions)
        self.ctx.count('define')

    def undefine(self, cls):
        if cls in self.checkers:
            self.log.append(('undefine', self.classes.index(cls)))
            Z.undefineChecker(cls)
            del self.checkers[cls]

    def direct(self, cls):
        """Trusted code changes a table itself."""
        checker = self.checkers.get(cls)
        if checker is not None:
            d = self.rng.choice([checker.get_permissions,
                                 checker.set_permissions])
            name = self.name()
            if self.rng.random() < .5:
                self.log.append(('direct', name))
                d[name] = self.shadow_of(d)[name] = self.rng.choice(PERMS)
            else:
                self.log.append(('direct del', name))
                d.pop(name, None)
                self.shadow_of(d).pop(name, None)

    def make_proxy(self, cls):
        if cls in self.checkers and len(self.proxies) < 12:
            obj = cls if isinstance(cls, types.ModuleType) else cls()
            proxy = ProxyFactory(obj)
            if not is_proxy(proxy):
                self.bad('no-proxy', 'no proxy for an object of the class')
            elif getChecker(proxy) is not self.checkers[cls]:
                self.bad('other-checker', 'the proxy has another checker')
            self.proxies.append((getChecker(proxy), obj, proxy))

    # -- judgement -------------------------------------------------------------

    def verify(self):
        for cls in self.classes:
            found = Z.getCheckerForInstancesOf(cls)
            want = self.checkers.get(cls)
            if found is not want:
                self.bad('class-checker', 'class has %r, should have %r'
                         % (found, want))
        for d, shadow in self.tables.values():
            self.ctx.count('tables')
            if list(d) != list(shadow):
                if set(d) != set(shadow):
                    self.bad('names', 'table has %r, should have %r' % (
                        sorted(map(repr, d)), sorted(map(repr, shadow))))
                    continue
            for name, p in shadow.items():
                if d[name] is not p and (
                        p is CheckerPublic or d[name] is CheckerPublic
                        or d[name] != p):
                    self.bad('permission', 'permission of %r is %r, '
                             'should be %r' % (name, d[name], p))
        if self.proxies:
            for i in range(4):
                self.access(*self.rng.choice(self.proxies))

    def access(self, checker, obj, proxy):
        name = self.name()
        write = self.rng.random() < .4
        if write:
            table = self.shadow_of(checker.set_permissions)
        else:
            table = self.shadow_of(checker.get_permissions)
        p = table.get(name)
        if p is CheckerPublic:
            want = 'ok'
        elif p is not None:
            want = 'ok' if p in self.grant else 'Unauthorized'
        elif not write and (name in ALWAYS_READABLE or name == '__iter__'):
            want = 'ok'
        else:
            want = 'ForbiddenAttribute'
        if name.startswith('_') or '\x00' in name:
            # setting these could have other effects, and what the object
            # lacks may come from the class of the proxy
            how, value = outcome(checker.check_setattr if write else
                                 checker.check, obj, name)
        elif write:
            how, value = outcome(setattr, proxy, name, 1)
        else:
            how, value = outcome(getattr, proxy, name)
        got = 'ok' if how == 'ok' else type(value).__name__
        self.ctx.count('access_' + want)
        if want == 'ok':
            # the object may have its own opinion
            bad = isinstance(value, (Forbidden, Unauthorized)) \
                if how == 'raise' else False
        else:
            bad = got != want or (want == 'Unauthorized'
                                  and value.args[1:] != (name, p))
        if bad:
            self.bad('access', '%s %r: %r %r, should be %s (%r)' % (
                'write' if write else 'read', name, how, value, want, p))
        self.ctx.seen((write, want, p if p is None or type(p) is str else 'P',
                       name[:2] == '__', len(self.log) > 12))


def one(ctx, rng):
    zope.component.testing.setUp()
    w = World(ctx, rng)
    try:
        set_interaction(w.inter)
        for i in range(rng.randrange(2, 50)):
            w.step()
        ctx.sample(w.log)
    finally:
        clear_interaction()
        zope.component.testing.tearDown()
        for cls in w.classes:
            Z._checkers.pop(cls, None)


def run(ctx):
    for i, rng in ctx.cases('histories', 5000, 120000):
        with ctx.case():
            one(ctx, rng)
