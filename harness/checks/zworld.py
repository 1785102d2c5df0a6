"""Random ZCML configurations, and what they must lead to."""
import itertools
import os
import shutil
import sys
import tempfile
import types
from xml.sax.saxutils import quoteattr

import zope.component
import zope.component.testing
import zope.interface
import zope.schema
from zope.component.interface import queryInterface
from zope.component.interfaces import IFactory
from zope.configuration import xmlconfig
from zope.configuration.config import ConfigurationConflictError
from zope.configuration.config import ConfigurationExecutionError
from zope.configuration.exceptions import ConfigurationError
from zope.interface.interface import InterfaceClass
from zope.interface.ro import InconsistentResolutionOrderError

from common import *  # noqa
from zope.security import management as M
from zope.security import simplepolicies
from zope.security.interfaces import IPermission
from zope.security.interfaces import ISecurityPolicy
from zope.schema.interfaces import IField

NAMES = ['a', 'b', 'c', 'd', 'e', 'm', 'n', '_x', '__len__', '__call__',
         '__getitem__', '__name__', '__iter__', '__str__']
IDS = ['vz.p0', 'vz.p1', 'vz.p2', 'vz.p3', 'http://vz/p4', 'VZ.p0',
       'zope.Public', 'zope.View']
PUBLIC = 'zope.Public'
_number = itertools.count()


class Refused(Exception):
    """The configuration cannot be read."""


class Undefined(Exception):
    """A permission that does not exist is used."""


class Conflict(Exception):
    pass


class World:
    """Classes, interfaces and modules to configure, and a model of what has
    been declared for them."""

    def __init__(self, rng):
        self.rng = rng
        zope.component.testing.setUp()
        self.scratch = tempfile.mkdtemp(prefix='zworld')
        n = next(_number)
        self.module = types.ModuleType('vz%d' % n)
        self.name = self.module.__name__
        sys.modules[self.name] = self.module
        self.added = [self.name]
        self.modules = []
        for i in range(rng.randrange(1, 4)):
            m = types.ModuleType('%s_m%d' % (self.name, i))
            sys.modules[m.__name__] = m
            self.added.append(m.__name__)
            for a in NAMES[:8]:
                setattr(m, a, [a])
            self.modules.append(m)
        self.make_interfaces()
        self.make_classes()
        self.policies = []
        for i in range(3):
            @zope.interface.provider(ISecurityPolicy)
            class Policy(simplepolicies.ParanoidSecurityPolicy):
                pass
            Policy.__name__ = 'Policy%d' % i
            setattr(self.module, Policy.__name__, Policy)
            self.policies.append(Policy)
        # the model
        self.tables = {}        # class or module -> (reads, writes)
        self.permissions = {}   # id -> (title, description)
        self.factories = {}     # id -> (class, title, description)
        self.mentioned = set()  # interfaces
        self.implemented = {c: list(zope.interface.implementedBy(c))
                            for c in self.classes}
        self.policy = M.getSecurityPolicy()
        self.native()

    def close(self):
        for n in self.added:
            del sys.modules[n]
        zope.component.testing.tearDown()
        shutil.rmtree(self.scratch)

    def make_interfaces(self):
        rng = self.rng
        self.interfaces = []
        for i in range(rng.randrange(3, 8)):
            bases = tuple(rng.sample(self.interfaces, min(
                len(self.interfaces), rng.choice([0, 0, 1, 1, 2]))))
            attrs = {}
            for n in rng.sample(NAMES, rng.randrange(0, 5)):
                k = rng.randrange(6)
                if k == 0:
                    attrs[n] = zope.interface.Attribute(n)
                elif k == 1:
                    def f(x):
                        """f"""
                    attrs[n] = zope.interface.interface.fromFunction(f)
                else:
                    attrs[n] = rng.choice([
                        zope.schema.TextLine, zope.schema.Int,
                        zope.schema.Field, zope.schema.List])(
                            readonly=rng.random() < .35)
            try:
                I_ = InterfaceClass(
                    'I%d' % i, bases or (zope.interface.Interface,), attrs,
                    __module__=self.name)
            except TypeError:       # inconsistent bases
                I_ = InterfaceClass('I%d' % i, (zope.interface.Interface,),
                                    attrs, __module__=self.name)
            setattr(self.module, I_.__name__, I_)
            self.interfaces.append(I_)

    def make_classes(self):
        rng = self.rng
        self.classes = []
        for i in range(rng.randrange(2, 6)):
            base = rng.choice(self.classes) if self.classes and \
                rng.random() < .4 else object
            cls = type('K%d' % i, (base,), {n: i for n in NAMES[:8]})
            cls.__module__ = self.name
            if rng.random() < .4:
                i = rng.choice(self.interfaces)
                if not any(zope.interface.interfaces.IInterface.providedBy(j)
                           and i.extends(j) or j.extends(i) for j in
                           zope.interface.implementedBy(cls)):
                    zope.interface.classImplements(cls, i)
            setattr(self.module, cls.__name__, cls)
            self.classes.append(cls)

    def native(self):
        """Some have been declared by Python code already."""
        rng = self.rng
        for cls in self.classes:
            if rng.random() < .85:
                continue
            reads = {n: rng.choice(['vz.q', CheckerPublic])
                     for n in rng.sample(NAMES, 3)}
            if rng.random() < .5:
                writes = {}
                Z.defineChecker(cls, Z.Checker(dict(reads)))
            else:
                writes = {n: rng.choice(['vz.q', CheckerPublic])
                          for n in rng.sample(NAMES, 2)}
                Z.defineChecker(cls, Z.Checker(dict(reads), dict(writes)))
            self.tables[cls] = reads, writes

    # what declarations do

    def protect(self, what, which, name, permission):
        t = self.tables.setdefault(what, ({}, {}))
        t[which][name] = CheckerPublic if permission == PUBLIC \
            else permission

    def like(self, cls, other):
        if other in self.tables:
            reads, writes = self.tables[other]
            t = self.tables.setdefault(cls, ({}, {}))
            t[0].update(dict(reads))
            t[1].update(dict(writes))

    def implement(self, cls, interface):
        self.implemented[cls].append(interface)

    def register(self, id, title, description):
        self.permissions[id] = title, description

    def register_factory(self, id, cls, title, description):
        self.factories[id] = cls, title, description

    def mention(self, interface):
        self.mentioned.add(interface)

    def set_policy(self, policy):
        self.policy = policy

    def require_defined(self, id):
        if id not in self.permissions:
            raise Undefined(id)


class Config:
    """A random configuration: its text, and the actions it consists of."""

    def __init__(self, world, emphasis='class', flawed=0.15):
        self.w = world
        self.rng = rng = world.rng
        self.emphasis = emphasis
        self.flawed = flawed
        self.actions = []       # (order, discriminator, path, function, args)
        self.used = set()       # discriminators, to keep conflicts rare
        self.conflicts = rng.random() < .25
        self.files = itertools.count()
        self.refused = False
        self.kinds = {}
        self.size = rng.choice([3, 6, 12])
        body = self.nodes({}, (), 0)
        if rng.random() < .9:
            # (they also may be defined where they are needed)
            body.insert(0, '<include package="zope.security" '
                        'file="meta.zcml"/>')
        else:
            body.insert(0, '<include package="zope.security" '
                        'file="meta.zcml"/>')
        self.text = self.document(body)

    def document(self, body):
        return ('<configure xmlns="http://namespaces.zope.org/zope" '
                'xmlns:meta="http://namespaces.zope.org/meta" '
                'i18n_domain="vz">\n%s\n</configure>\n' % '\n'.join(body))

    def count(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def action(self, path, discriminator, function, *args, order=0):
        self.actions.append((order, discriminator, path, function, args))

    def free(self, discriminator, path):
        """Should it be declared (again)?"""
        if discriminator in self.used:
            return self.conflicts and self.rng.random() < .5
        self.used.add(discriminator)
        return True

    def permission_id(self, mapping, path):
        """(text, resulting id)"""
        rng = self.rng
        id = rng.choice(IDS[:6] + ['zope.Public'] if rng.random() < .97
                        else ['vz.undefined'])
        if mapping and rng.random() < .4:
            id = rng.choice(list(mapping))
        got = mapping.get(id, id)
        if got != PUBLIC:
            self.action(path, None, self.w.require_defined, got,
                        order=9999999)
        if rng.random() < .1:
            id = rng.choice([' %s', '%s ', '\n    %s', '\t%s\n']) % id
        return id, got

    def nodes(self, mapping, path, depth):
        rng = self.rng
        out = []
        weights = {'class': [('class', 8), ('permission', 3), ('group', 1),
                             ('include', 1), ('module', 1), ('redefine', 1),
                             ('policy', .2)],
                   'module': [('class', 1), ('permission', 3), ('group', 2),
                              ('include', 2), ('module', 6), ('redefine', 4),
                              ('policy', 1)]}[self.emphasis]
        kinds, w = zip(*weights)
        if depth == 0:
            for id in IDS:
                if rng.random() < .93:
                    out.append(self.permission(mapping, path, id))
        for i in range(rng.randrange(1, self.size)):
            kind = rng.choices(kinds, w)[0]
            if depth > 3 and kind in ('group', 'include'):
                continue
            self.count(kind)
            x = getattr(self, kind)(mapping, path, depth) \
                if kind != 'permission' else self.permission(mapping, path)
            if x:
                out.append(x)
        return out

    def permission(self, mapping, path, id=None):
        rng = self.rng
        # (ids are no references: no redefinition applies to them)
        id = id or rng.choice(IDS)
        if not self.free(('permission', id), path):
            return ''
        title = rng.choice(['T%d' % rng.randrange(100), 'Titel \u00e9',
                            'x < y & "z"'])
        description = rng.choice(['', 'D%d' % rng.randrange(100)])
        self.action(path, ('permission', id), self.w.register, id, title,
                    description)
        return '<permission id=%s title=%s%s/>' % (
            quoteattr(id), quoteattr(title),
            ' description=%s' % quoteattr(description)
            if description else '')

    def group(self, mapping, path, depth):
        return '<configure>\n%s\n</configure>' % '\n'.join(
            self.nodes(dict(mapping), path, depth + 1))

    def include(self, mapping, path, depth):
        name = os.path.join(self.w.scratch, 'f%d_%d.zcml' % (
            next(self.files), next(_number)))
        body = self.nodes(dict(mapping), path + (name,), depth + 1)
        with open(name, 'w', encoding='utf-8') as f:
            f.write(self.document(body))
        return '<include file=%s/>' % quoteattr(name)

    def policy(self, mapping, path, depth):
        if not self.free('policy', path):
            return ''
        p = self.rng.choice(self.w.policies)
        self.action(path, 'policy', self.w.set_policy, p)
        return '<securityPolicy component="%s.%s"/>' % (
            self.w.name, p.__name__)

    def redefine(self, mapping, path, depth):
        a, b = self.permission_id(mapping, path), \
            self.permission_id(mapping, path)
        mapping[a[1]] = b[1]
        return '<meta:redefinePermission from=%s to=%s/>' % (
            quoteattr(a[0]), quoteattr(b[0]))

    def interface_names(self, n):
        return self.rng.sample(self.w.interfaces, min(
            n, len(self.w.interfaces)))

    def tokens(self, items):
        return self.rng.choice([' ', '  ', '\n    ']).join(items)

    def reference(self, thing):
        return '%s.%s' % (self.w.name, thing.__name__)

    def module(self, mapping, path, depth):
        rng, w = self.rng, self.w
        m = rng.choice(w.modules)
        mapping = dict(mapping)
        out = []
        for i in range(rng.randrange(1, 5)):
            k = rng.random()
            if k < .12:
                self.count('redefine')
                out.append(self.redefine(mapping, path, depth))
                continue
            if k < .2:
                out.append(self.permission(mapping, path))
                continue
            kind = rng.choice(['allow', 'require'])
            names = [n for n in rng.sample(NAMES, rng.randrange(0, 4))]
            faces = self.interface_names(rng.choice([0, 0, 1, 2]))
            every = set(names)
            for i in faces:
                every.update(i.names(all=True))
            if not all([self.free(('module', m, n), path) for n in every]):
                continue
            attrs = []
            if names:
                attrs.append('attributes="%s"' % self.tokens(
                    names + rng.sample(names, rng.choice([0, 0, 1]))))
            if faces:
                attrs.append('interface="%s"' % self.tokens(
                    self.reference(i) for i in faces))
            perm = PUBLIC
            if kind == 'require':
                if rng.random() < self.flawed / 4:
                    self.refused = True
                else:
                    text, perm = self.permission_id(mapping, path)
                    attrs.append('permission=%s' % quoteattr(text))
            self.count('module_' + kind)
            rng.shuffle(attrs)
            for n in sorted(every):
                self.action(path, ('module', m, n), w.protect, m, 0, n, perm)
            out.append('<%s %s/>' % (kind, ' '.join(attrs)))
        return '<module module="%s">\n%s\n</module>' % (
            m.__name__, '\n'.join(out))

    # 'class' is a keyword
    def class_(self, mapping, path, depth):
        rng, w = self.rng, self.w
        cls = rng.choice(w.classes)
        out = []
        for i in range(rng.randrange(0, 5)):
            kind = rng.choices(['require', 'allow', 'implements', 'factory'],
                               [6, 3, 1.5, .7])[0]
            self.count('class_' + kind)
            x = getattr(self, 'class_' + kind)(cls, mapping, path)
            if x:
                out.append('  ' + x)
        return '<class class="%s">\n%s\n</class>' % (
            self.reference(cls), '\n'.join(out))

    def class_implements(self, cls, mapping, path):
        faces = self.interface_names(self.rng.randrange(1, 4))
        # (derived ones first: an inconsistent order is refused)
        faces.sort(key=lambda i: i.__name__, reverse=True)
        for i in faces:
            self.action(path, None, self.w.implement, cls, i)
            self.action(path, None, self.w.mention, i)
        return '<implements interface="%s"/>' % self.tokens(
            self.reference(i) for i in faces)

    def class_factory(self, cls, mapping, path):
        rng = self.rng
        id = rng.choice([None, 'vz.factory%d' % rng.randrange(5)])
        real = id or self.reference(cls)
        if not self.free(('factory', real), path):
            return ''
        title = rng.choice(['', 'F%d' % rng.randrange(9)])
        description = rng.choice(['', 'FD%d' % rng.randrange(9)])
        self.action(path, ('factory', real), self.w.register_factory, real,
                    cls, title, description)
        return '<factory %s/>' % ' '.join(
            '%s="%s"' % (k, v) for k, v in [
                ('id', id), ('title', title), ('description', description)]
            if v)

    def class_allow(self, cls, mapping, path):
        return self.declare(cls, mapping, path, 'allow')

    def class_require(self, cls, mapping, path):
        return self.declare(cls, mapping, path, 'require')

    def declare(self, cls, mapping, path, kind):
        rng, w = self.rng, self.w
        names = rng.sample(NAMES, rng.choice([0, 0, 1, 3]))
        faces = self.interface_names(rng.choice([0, 0, 1, 2]))
        sets, schemas, like = [], [], None
        if kind == 'require':
            sets = rng.sample(NAMES, rng.choice([0, 0, 1, 2]))
            schemas = self.interface_names(rng.choice([0, 0, 0, 1, 2]))
            if rng.random() < .25:
                like = rng.choice(w.classes)
        if not (names or faces or sets or schemas or like) \
                and rng.random() > self.flawed:
            return ''
        # what it declares, in order
        reads = []
        for i in faces:
            reads += sorted(i.names(all=True))
        reads += names
        writes = list(sets)
        for s in schemas:
            for n in sorted(s.names(all=True)):
                f = s[n]
                if IField.providedBy(f) and not f.readonly:
                    writes.append(n)
        twice = len(set(reads)) != len(reads) \
            or len(set(writes)) != len(writes)
        if twice and not (self.conflicts and rng.random() < .3):
            return ''
        if not all([self.free(('read', cls, n), path) for n in set(reads)]
                   + [self.free(('write', cls, n), path)
                      for n in set(writes)]):
            return ''
        attrs = []
        perm = PUBLIC
        if names:
            attrs.append('attributes="%s"' % self.tokens(names))
        if faces:
            attrs.append('interface="%s"' % self.tokens(
                self.reference(i) for i in faces))
        if sets:
            attrs.append('set_attributes="%s"' % self.tokens(sets))
        if schemas:
            attrs.append('set_schema="%s"' % self.tokens(
                self.reference(i) for i in schemas))
        if like:
            attrs.append('like_class="%s"' % self.reference(like))
        rest = names or faces or sets or schemas
        if kind == 'require':
            if (not rest and like and rng.random() < .7) \
                    or rng.random() < self.flawed / 4:
                if rest or not like:
                    self.refused = True
            else:
                text, perm = self.permission_id(mapping, path)
                attrs.append('permission=%s' % quoteattr(text))
        if not rest and not like:
            self.refused = True
        rng.shuffle(attrs)
        if like:
            self.action(path, None, w.like, cls, like)
        for n in reads:
            self.action(path, ('read', cls, n), w.protect, cls, 0, n, perm)
        for n in writes:
            self.action(path, ('write', cls, n), w.protect, cls, 1, n, perm)
        for i in faces + schemas:
            self.action(path, None, w.mention, i)
        return '<%s %s/>' % (kind, ' '.join(attrs))

    # what must happen

    def resolve(self):
        groups = {}
        result = []
        for i, (order, d, path, f, args) in enumerate(self.actions):
            if d is None:
                result.append((order, i, f, args))
            else:
                groups.setdefault(d, []).append((path, order, i, f, args))
        for d, all_ in groups.items():
            all_.sort(key=lambda a: a[:3])
            first = all_[0]
            for other in all_[1:]:
                if other[0] == first[0] or \
                        other[0][:len(first[0])] != first[0]:
                    raise Conflict(d)
            result.append(first[1:])
        result.sort(key=lambda a: a[:2])
        return result

    def expect(self):
        """Change the model as the configuration must change the world, and
        say how it ends."""
        if self.refused:
            return 'refused'
        try:
            todo = self.resolve()
        except Conflict:
            return 'conflict'
        for order, i, f, args in todo:
            try:
                f(*args)
            except Undefined:
                return 'undefined'
        return 'ok'

    def load(self):
        """How it really ends."""
        try:
            xmlconfig.string(self.text)
        except ConfigurationConflictError:
            return 'conflict'
        except ConfigurationExecutionError as e:
            if 'Undefined permission ID' in str(e):
                return 'undefined'
            if 'InconsistentResolutionOrder' in str(e):
                return 'skip'
            return 'execution: %s' % e
        except ConfigurationError:
            return 'refused'
        except ValueError as e:
            if e.args[0] == 'Undefined permission ID':
                return 'undefined'
            raise
        return 'ok'


setattr(Config, 'class', Config.class_)


def text_of(table):
    return {n: 'Public' if p is CheckerPublic else p
            for n, p in table.items()}


def compare_tables(ctx, w, text):
    """The checkers of all classes and modules."""
    for what in w.classes + w.modules:
        c = Z.getCheckerForInstancesOf(what)
        want = w.tables.get(what)
        if want is None:
            got = None if c is None else (
                dict(c.get_permissions), dict(c.set_permissions))
        elif c is None:
            got = {}, {}
        else:
            got = dict(c.get_permissions), dict(c.set_permissions)
        ctx.count('tables')
        if want is None and got in (None, ({}, {})):
            continue
        if want is not None:
            ctx.count('declarations', len(want[0]) + len(want[1]))
        if got is None or want is None or not (
                same(got[0], want[0]) and same(got[1], want[1])):
            ctx.fail('tables-%s' % type(what).__name__,
                     '%s got %r, expected %r' % (
                         what.__name__, got and [text_of(t) for t in got],
                         want and [text_of(t) for t in want]), text)


def same(got, want):
    return len(got) == len(want) and all(
        n in want and (p is CheckerPublic) == (want[n] is CheckerPublic)
        and p == want[n] for n, p in got.items())


def compare_access(ctx, rng, w, text):
    """What proxies really let through."""
    granted = set(p for p in IDS + ['vz.q'] if rng.random() < .5)
    inter = Interaction(lambda p, o: p in granted)
    set_interaction(inter)
    try:
        for what in w.classes + w.modules:
            reads, writes = w.tables.get(what, ({}, {}))
            is_class = isinstance(what, type)
            obj = what() if is_class else what
            p = ProxyFactory(obj)
            if is_class or what in w.tables:
                always = ALWAYS_READABLE
            else:
                always = ALWAYS_READABLE
            for n in NAMES[:8]:
                for mode, table in (('get', reads), ('set', writes)):
                    if n in table:
                        want = 'ok' if table[n] is CheckerPublic \
                            or table[n] in granted else 'Unauthorized'
                    elif mode == 'get' and n in always:
                        want = 'ok'
                    else:
                        want = 'ForbiddenAttribute'
                    if mode == 'get':
                        how, v = outcome(getattr, p, n)
                    else:
                        how, v = outcome(setattr, p, n, 1)
                    got = 'ok' if how == 'ok' else type(v).__name__
                    ctx.count('access_' + want)
                    if got != want:
                        ctx.fail('access-%s' % mode, '%s %s of %s: %s, '
                                 'expected %s; tables %r' % (
                                     mode, n, what.__name__, got, want,
                                     [text_of(t) for t in (reads, writes)]),
                                 text)
    finally:
        clear_interaction()
    # undo the changes
    for m in w.modules:
        for a in NAMES[:8]:
            setattr(m, a, [a])


def compare_rest(ctx, w, text):
    for cls in w.classes:
        got = zope.interface.implementedBy(cls)
        own = set(w.implemented[cls])
        for base in cls.__mro__[1:]:
            own.update(w.implemented.get(base, ()))
        for i in list(own):
            own.update(i.__iro__)
        got = set(i for i in got.__iro__ if isinstance(i, InterfaceClass))
        if got - {zope.interface.Interface} \
                != own - {zope.interface.Interface}:
            ctx.fail('implements', '%s implements %r, expected %r' % (
                cls.__name__, sorted(i.__name__ for i in got),
                sorted(i.__name__ for i in own)), text)
        ctx.count('implements', len(own))
    for i in w.interfaces:
        known = queryInterface('%s.%s' % (w.name, i.__name__))
        if (known is i) != (i in w.mentioned):
            ctx.fail('interfaces', '%s %s registered' % (
                i.__name__, 'is' if known is i else 'is not'), text)
    got = {n: (p.id, str(p.title), str(p.description), IPermission.providedBy(
        p)) for n, p in zope.component.getUtilitiesFor(IPermission)}
    want = {n: (n, t, d, True) for n, (t, d) in w.permissions.items()}
    if got != want:
        ctx.fail('permissions', 'registered permissions %r, expected %r' % (
            got, want), text)
    ctx.count('permissions', len(want))
    got = {n: f for n, f in zope.component.getUtilitiesFor(IFactory)}
    if set(got) != set(w.factories):
        ctx.fail('factories', 'registered factories %r, expected %r' % (
            sorted(got), sorted(w.factories)), text)
    for n, (cls, title, description) in w.factories.items():
        f = got.get(n)
        if f is None:
            continue
        ctx.count('factories')
        how, v = outcome(lambda: f())
        if how != 'ok' or type(removeSecurityProxy(v)) is not cls:
            ctx.fail('factory', 'the factory for %s gave %r' % (
                cls.__name__, v), text)
        if (str(f.title), str(f.description)) != (title, description):
            ctx.fail('factory', 'the factory for %s is titled %r' % (
                cls.__name__, (f.title, f.description)), text)
    if M.getSecurityPolicy() is not w.policy:
        ctx.fail('policy', 'policy %r, expected %r' % (
            M.getSecurityPolicy(), w.policy), text)


def one(ctx, rng, emphasis):
    try:
        w = World(rng)
    except InconsistentResolutionOrderError:
        zope.component.testing.tearDown()
        ctx.count('skipped')
        return
    try:
        for k in range(rng.choice([1, 1, 2, 3])):
            c = Config(w, emphasis)
            want = c.expect()
            how, v = outcome(c.load)
            got = v if how == 'ok' else '%s: %s' % (type(v).__name__, v)
            if got == 'skip':
                # interfaces implemented in an order without resolution
                ctx.count('skipped')
                break
            ctx.count('configurations')
            ctx.count('ended_' + want)
            for kind, n in c.kinds.items():
                ctx.count('n_' + kind, n)
            if got != want:
                ctx.fail('end-%s' % want, 'loading ended %r, expected %r' % (
                    got, want), c.text)
                break
            if k == 0:
                ctx.seen((emphasis, want, c.text), nontrivial=len(
                    c.actions) > 8)
            if want == 'undefined':
                # what has been executed before then is not specified
                break
            compare_tables(ctx, w, c.text)
            compare_rest(ctx, w, c.text)
            compare_access(ctx, rng, w, c.text)
            compare_tables(ctx, w, c.text)
    finally:
        w.close()
