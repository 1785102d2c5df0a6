"""P21: permission lookups and vocabularies reflect the registrations."""
from common import *  # noqa
import zope.component
import zope.component.testing
from zope.component import provideUtility
from zope.configuration import xmlconfig
from zope.configuration.config import ConfigurationMachine
from zope.interface import Interface
from zope.interface import implementer
from zope.interface.interfaces import IComponentLookup
from zope.interface.registry import Components
from zope.schema import Id
from zope.schema.interfaces import IVocabularyFactory
from zope.security import permission as P
from zope.security.interfaces import PUBLIC_PERMISSION_NAME
from zope.security.interfaces import IPermission
from zope.security.zcml import Permission as PermissionField


class IMyPermission(IPermission):
    pass


class IUnrelated(Interface):
    pass


@implementer(IPermission)
class Falsy:
    """A permission that counts as false."""

    def __init__(self, id):
        self.id = self.title = id
        self.description = ''

    def __len__(self):
        return 0


@implementer(IPermission)
class OtherId:
    """The id it has is not that of its registration."""

    def __init__(self, id):
        self.id = 'other.' + id
        self.title = 'zzz'
        self.description = ''


@implementer(IMyPermission)
class Special(P.Permission):
    pass


class Context:
    """Something with its own registrations."""

    def __init__(self, registry):
        self.registry = registry

    def __conform__(self, iface):
        if iface is IComponentLookup:
            return self.registry

    def __bool__(self):
        return False


IDS = ['zope.View', 'zope.Public', 'zope.public', 'Public', 'public', 'a.b',
       'A.b', 'b.a', 'a.b.c', 'zope.Public.Not', 'zz.last', 'aa.first',
       'caf\xe9.x', 'x y', '', '_', '~.tilde', 'http://example.org/p',
       'zope.ManageContent', '0.digits', 'zope.security.checker',
       'CheckerPublic', 'zope.PublicX', 'Zope.Public']


def fresh(id):
    """An equal string, but another one."""
    return ''.join(list(id))


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.log = []
        gsm = zope.component.getGlobalSiteManager()
        r1 = Components('r1', (gsm,))
        r2 = Components('r2', (r1,))
        r3 = Components('r3', ())
        self.ro = {'global': [gsm], 'r1': [r1, gsm], 'r2': [r2, r1, gsm],
                   'r3': [r3]}
        self.contexts = {'global': None, 'r1': Context(r1),
                         'r2': Context(r2), 'r3': Context(r3)}
        self.have = {gsm: {}, r1: {}, r2: {}, r3: {}}
        self.name = {gsm: 'global', r1: 'r1', r2: 'r2', r3: 'r3'}
        k = rng.choice([2, 5, 12, len(IDS)])
        self.ids = sorted(rng.sample(IDS, k)) + ['p.%d' % i for i in range(
            rng.choice([0, 2, 30]))]
        self.n = 0

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; after %r' % (msg, self.log[-10:]))

    # -- registrations ------------------------------------------------------------

    def step(self):
        rng = self.rng
        registry = rng.choice(list(self.have))
        have = self.have[registry]
        r = rng.random()
        if r < .5 or not have:
            self.register(registry, rng.choice(self.ids))
        elif r < .6:
            self.zcml(rng.choice(self.ids))
        elif r < .65:
            # something else under the same name
            id = rng.choice(self.ids)
            registry.registerUtility(object(), IUnrelated, id)
            self.log.append(('unrelated', id))
        else:
            iface, id = rng.choice(sorted(have, key=repr))
            registry.unregisterUtility(provided=iface, name=id)
            del have[iface, id]
            self.log.append(('unregister', self.name[registry], id))
            self.ctx.count('unregistered')

    def register(self, registry, id):
        rng = self.rng
        make = rng.choice([P.Permission, P.Permission, Falsy, OtherId,
                           Special])
        obj = make(id)
        if make is P.Permission and rng.random() < .5:
            obj = make(id, rng.choice(['', 'Title', 'aaa']),
                       rng.choice(['', 'text']))
        iface = IMyPermission if make is Special and rng.random() < .6 \
            else IPermission
        if self.name[registry] == 'global' and rng.random() < .5:
            provideUtility(obj, iface, id)
        else:
            registry.registerUtility(obj, iface, id)
        self.have[registry][iface, id] = obj
        self.log.append(('register', self.name[registry], id,
                         make.__name__, iface.__name__))
        self.ctx.count('registered')

    def zcml(self, id):
        """By the directive, in the global registry."""
        try:
            Id().fromUnicode(id)
        except Exception:
            return
        context = ConfigurationMachine()
        xmlconfig.registerCommonDirectives(context)
        import zope.security
        xmlconfig.include(context, 'meta.zcml', zope.security)
        gsm = zope.component.getGlobalSiteManager()
        xmlconfig.string(
            '<configure xmlns="http://namespaces.zope.org/zope" '
            'i18n_domain="x"><permission id="%s" title="T %s" /></configure>'
            % (id, id), context)
        obj = gsm.queryUtility(IPermission, id)
        if obj is None or obj.id != id:
            return self.bad('directive', 'the directive registered %r' % obj)
        self.have[gsm][IPermission, id] = obj
        self.log.append(('zcml', id))
        self.ctx.count('directives')

    def defined(self, where):
        """id -> permission, as seen from there"""
        found = {}
        for registry in self.ro[where]:
            for iface in (IPermission, IMyPermission):
                for (i, id), obj in self.have[registry].items():
                    if i is iface and id not in found:
                        found[id] = obj
        return found

    # -- judgement -------------------------------------------------------------------

    def verify(self, where):
        rng = self.rng
        context = self.contexts[where]
        want = self.defined(where)
        self.log.append(('look', where))
        for id in rng.sample(self.ids, min(len(self.ids), 6)):
            self.check(context, id, id in want)
        self.check(context, 'never.defined', False)
        how, e = outcome(P.checkPermission, context, CheckerPublic)
        if how != 'ok':
            self.bad('public', 'the public marker is undefined: %r' % e)
        args = () if context is None and rng.random() < .5 else (context,)
        got = list(P.allPermissions(*args))
        if sorted(got) != sorted(i for i in want
                                 if i != PUBLIC_PERMISSION_NAME):
            self.bad('all', 'allPermissions gave %r for %r' % (
                sorted(got), sorted(want)))
        self.ctx.count('listed', len(got))
        self.permissions(P.PermissionsVocabulary(*args), want)
        self.ids_vocabulary(P.PermissionIdsVocabulary(*args), want)
        self.ctx.seen((where, len(want), PUBLIC_PERMISSION_NAME in want,
                       tuple(sorted(want))[:4], len(self.log) % 50))

    def check(self, context, id, want):
        how, e = outcome(P.checkPermission, context, fresh(id))
        self.ctx.count('checked_defined' if want else 'checked_undefined')
        if want:
            if how != 'ok':
                self.bad('refused', '%r is defined, but: %r' % (id, e))
            elif e is not None:
                self.bad('result', 'checkPermission gave %r' % e)
        elif how != 'raise' or type(e) is not ValueError \
                or id not in e.args:
            self.bad('accepted', '%r is not defined, but: %s %r' % (
                id, how, e))

    def permissions(self, v, want):
        terms = list(v)
        self.ctx.count('terms', len(terms))
        got = {t.token: t.value for t in terms}
        if len(terms) != len(want) or len(v) != len(want) \
                or set(got) != {token(i) for i in want}:
            return self.bad('vocabulary', 'tokens %r for %r' % (
                sorted(t.token for t in terms), sorted(want)))
        for id, obj in want.items():
            if got[token(id)] is not obj:
                self.bad('vocabulary-value', 'the term of %r is for '
                         'another permission' % id)
            if v.getTermByToken(token(id)).value is not obj \
                    or v.getTerm(obj).token != token(id) or obj not in v:
                self.bad('vocabulary-lookup', 'the term of %r is not found'
                         % id)

    def ids_vocabulary(self, v, want):
        terms = list(v)
        public = PUBLIC_PERMISSION_NAME
        order = sorted(i for i in want if i != public)
        expected = [(i, token(i), i) for i in order]
        if public in want:
            expected.insert(0, (CheckerPublic, public, 'Public'))
            self.ctx.count('with_public')
        got = [(t.value, t.token, t.title) for t in terms]
        if got != expected or public in want and \
                got[0][0] is not CheckerPublic:
            return self.bad('ids', 'the terms are %r, should be %r' % (
                got, expected))
        if any(type(t.value) is not str for t in terms[public in want:]):
            self.bad('ids', 'values are %r' % got)
        if (CheckerPublic in v) != (public in want) or (
                public not in self.ids and public in v):
            self.bad('ids-public', 'the public marker is %sin'
                     % ('' if CheckerPublic in v else 'not '))

    def field(self):
        """The permission field of ZCML."""
        rng = self.rng
        actions = []

        class FieldContext:
            def action(self, **kw):
                actions.append(kw)

        context = FieldContext()
        mapping = {}
        if rng.random() < .6:
            for i in range(rng.choice([0, 1, 3])):
                mapping[fresh(rng.choice(self.ids))] = rng.choice(self.ids)
            context.permission_mapping = dict(mapping)
        value = rng.choice(self.ids + ['undefined.id', 'nodot', 'a.b c',
                                       ' zope.View', 'zope.View\n'])
        oracle, result = outcome(Id().fromUnicode, value)
        field = PermissionField(title='x').bind(context)
        how, got = outcome(field.fromUnicode, fresh(value))
        self.ctx.count('fields')
        if how != oracle:
            return self.bad('field', 'the field gives %s %r for %r' % (
                how, got, value))
        if how == 'raise':
            return
        if got != mapping.get(result, result):
            self.bad('mapping', 'the field gives %r for %r with %r' % (
                got, value, mapping))
        if getattr(context, 'permission_mapping', {}) != mapping:
            self.bad('mapping', 'the field changed the redefinitions')
        defined = result == PUBLIC_PERMISSION_NAME \
            or result in self.defined('global')
        failed = None
        for a in actions:
            how, e = outcome(a['callable'], *a.get('args', ()),
                             **(a.get('kw') or {}))
            if how == 'raise':
                failed = e
        self.ctx.count('fields_defined' if defined else 'fields_undefined')
        if defined and failed is not None:
            self.bad('field-refused', '%r is defined, but: %r' % (
                result, failed))
        if not defined and type(failed) is not ValueError:
            self.bad('field-accepted', '%r is not defined, but: %r' % (
                result, failed))


def token(id):
    return id.encode('ascii', 'backslashreplace').decode('ascii')


def one(ctx, rng):
    zope.component.testing.setUp()
    try:
        w = World(ctx, rng)
        for i in range(rng.choice([2, 6, 20, 60])):
            w.step()
            w.verify(rng.choice(list(w.contexts)))
            w.field()
        for where in w.contexts:
            w.verify(where)
        ctx.sample(w.log)
        for f in (P.PermissionsVocabulary, P.PermissionIdsVocabulary):
            if not IVocabularyFactory.providedBy(f):
                w.bad('factory', 'no vocabulary factory')
    finally:
        zope.component.testing.tearDown()


def run(ctx):
    for i, rng in ctx.cases('registrations', 1600, 40000):
        with ctx.case():
            one(ctx, rng)
