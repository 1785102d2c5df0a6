"""P10: the bundled policies, participations, and checkPermission."""
from common import *  # noqa
from zope.security import management as M
from zope.security import simplepolicies as S
from zope.security import testing as ZT
from zope.security.interfaces import NoInteraction


class SystemLike:
    """Looks just like the system user, but is not."""
    id = M.system_user.id
    title = M.system_user.title
    description = M.system_user.description

    def __eq__(self, other):
        return True
    __hash__ = None


class Falsy(SystemLike):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class SlotPart:
    """A participation of another kind."""
    __slots__ = ('principal', 'interaction')

    def __init__(self, principal):
        self.principal = principal
        self.interaction = None


class Lookalike(type(M.system_user)):
    """Another instance of the class of the system user."""


class Target:
    def __init__(self):
        self.a = self.b = 1


class Odd:
    """An interaction that answers oddly."""

    def __init__(self, answer, falsy):
        self.answer, self.falsy = answer, falsy
        self.asked = []

    def __bool__(self):
        return not self.falsy

    def __eq__(self, other):
        return True
    __hash__ = None

    def checkPermission(self, permission, object):
        self.asked.append((permission, object))
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer


def principal(rng):
    r = rng.random()
    if r < .55:
        return M.system_user
    return rng.choice([
        ZT.Principal('someone'), ZT.Principal(M.system_user.id), SystemLike(),
        Falsy(), None, Lookalike(), type(M.system_user)(), 0, '',
        Proxy(M.system_user, Z.NamesChecker(['id', 'title'])),
        ZT.Principal('member', groups=['system'])])


class Run:

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.parts = [rng.choice([ZT.Participation, SlotPart])(principal(rng))
                      for i in range(rng.randrange(1, 7))]
        self.owner = {}         # id(participation) -> interaction
        self.members = []       # (interaction, [participations], class)
        self.claims = set()     # ids of those that belong to one in name only
        self.log = []

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; after %r' % (msg, self.log[-8:]))

    def verify(self):
        for p in self.parts:
            want = self.owner.get(id(p))
            if p.interaction is not want:
                self.bad('reference', 'a participation refers to %r, not to '
                         '%r' % (p.interaction, want))
        for it, members, cls in self.members:
            got = list(it.participations)
            if sorted(map(id, got)) != sorted(map(id, members)):
                self.bad('members', 'an interaction has %d participations, '
                         'expected %d, or others' % (len(got), len(members)))
        self.ctx.count('verified')

    def new(self):
        rng = self.rng
        cls = rng.choice([S.ParanoidSecurityPolicy,
                          S.ParanoidSecurityPolicy,
                          S.PermissiveSecurityPolicy, type(
                              'Sub', (S.ParanoidSecurityPolicy,), {})])
        args = [rng.choice(self.parts) for i in range(rng.randrange(4))]
        free = []
        for p in args:
            if id(p) in self.owner or any(p is q for q in free):
                break
            free.append(p)
        fails = len(free) < len(args)
        how, v = outcome(cls, *args)
        if fails:
            self.ctx.count('refused_new')
            if how != 'raise' or not isinstance(v, ValueError):
                self.bad('new-member', 'an interaction with the '
                         'participation of another: %s %r' % (how, v))
                return
            if free:
                # those before it remain with the interaction that failed
                it = free[0].interaction
                if it is None:
                    return
                for p in free:
                    self.owner[id(p)] = it
                self.members.append((it, free, cls))
            return
        if how != 'ok':
            self.bad('new', 'raised %r' % (v,))
            return
        for p in args:
            self.owner[id(p)] = v
        self.members.append((v, args, cls))
        self.ctx.count('interactions')

    def add(self):
        if not self.members:
            return
        it, members, cls = self.rng.choice(self.members)
        p = self.rng.choice(self.parts)
        how, v = outcome(it.add, p)
        if id(p) in self.owner:
            self.ctx.count('refused_add')
            if how != 'raise' or not isinstance(v, ValueError):
                self.bad('add-member', 'adding the participation of an '
                         'interaction: %s %r' % (how, v))
            return
        if how != 'ok':
            self.bad('add', 'raised %r' % (v,))
            return
        self.owner[id(p)] = it
        members.append(p)
        self.ctx.count('added')

    def remove(self):
        if not self.members:
            return
        it, members, cls = self.rng.choice(self.members)
        p = self.rng.choice(members if members and self.rng.random() < .6
                            else self.parts)
        how, v = outcome(it.remove, p)
        if id(p) in self.claims:
            # whatever it claims, it is not among those of the interaction
            self.ctx.count('refused_claims')
            if how != 'raise' or not isinstance(v, ValueError):
                self.bad('remove-claim', 'removing a participation that the '
                         'interaction does not have: %s %r' % (how, v))
            return
        if self.owner.get(id(p)) is not it:
            self.ctx.count('refused_remove')
            if how != 'raise' or not isinstance(v, ValueError):
                self.bad('remove-other', 'removing a participation that does '
                         'not belong to it: %s %r' % (how, v))
            return
        if how != 'ok':
            self.bad('remove', 'raised %r' % (v,))
            return
        del self.owner[id(p)]
        members[:] = [q for q in members if q is not p]
        self.ctx.count('removed')

    def claim(self):
        """A participation that refers to an interaction on its own."""
        p = self.rng.choice(self.parts)
        if id(p) in self.claims:
            self.claims.remove(id(p))
            del self.owner[id(p)]
            p.interaction = None
        elif id(p) not in self.owner and self.members:
            self.claims.add(id(p))
            self.owner[id(p)] = p.interaction = self.rng.choice(
                self.members)[0]

    def change(self):
        # the principal counts that the participation has at the time
        self.rng.choice(self.parts).principal = principal(self.rng)

    def check(self):
        rng = self.rng
        if not self.members:
            return
        it, members, cls = rng.choice(self.members)
        perm = rng.choice(['p', '', 'zope.Public', None, CheckerPublic, 0,
                           'zope.View', Z.CP_HACK_XXX, ('p',)])
        public = perm is CheckerPublic
        system = all(p.principal is M.system_user for p in members)
        allows = (public or system
                  or issubclass(cls, S.PermissiveSecurityPolicy))
        obj = rng.choice([object(), None, 1, it, Target()])
        route = rng.choice(['direct', 'direct', 'passed', 'current', 'proxy',
                            'canAccess', 'canWrite'])
        M.endInteraction()
        if route == 'direct':
            how, v = outcome(it.checkPermission, perm, obj)
        elif route == 'passed':
            allows = allows or perm is None
            if rng.random() < .5:
                set_interaction(Interaction(lambda p, o: not allows))
            how, v = outcome(M.checkPermission, perm, obj, it)
        else:
            set_interaction(it)
            if route == 'current':
                allows = allows or perm is None
                how, v = outcome(M.checkPermission, perm, obj)
            else:
                t = Target()
                p = Proxy(t, Z.Checker({'a': perm}, {'a': perm}))
                if route == 'proxy':
                    how, v = outcome(getattr, p, 'a') if rng.random() < .5 \
                        else outcome(setattr, p, 'a', 1)
                    v = how == 'ok' or v
                    if perm is None:
                        allows = False
                else:
                    how, v = outcome(getattr(Z, route), p, 'a')
                    if perm is None:
                        allows = False
                if how == 'raise':
                    want = ForbiddenAttribute if perm is None \
                        else Unauthorized
                    if type(v) is not want:
                        self.bad('check-error', '%s raised %r' % (route, v))
                    how, v = 'ok', False
        self.ctx.count('answers')
        self.ctx.count('allowed' if allows else 'refused')
        self.ctx.seen((route, cls.__name__, len(members), system, public,
                       str(perm), sum(p.principal is M.system_user
                                      for p in members)))
        if how != 'ok' or bool(v) != allows:
            self.bad('answer-%s' % cls.__name__, '%s for %r with principals '
                     '%r: %s %r' % (route, perm, [
                         type(p.principal).__name__ for p in members],
                         how, v))
        M.endInteraction()
        M.endInteraction()

    def odd(self):
        """checkPermission with and without other interactions"""
        rng = self.rng
        answers = [True, False, 1, 0, None, 'yes', [], object(),
                   ValueError('v'), KeyError('k'), AttributeError('a')]
        passed = Odd(rng.choice(answers), rng.random() < .5) \
            if rng.random() < .5 else None
        current = Odd(rng.choice(answers), rng.random() < .5) \
            if rng.random() < .6 else None
        M.endInteraction()
        if current is not None:
            set_interaction(current)
        perm = rng.choice(['p', '', 0, None, CheckerPublic, 'zope.Public',
                           False])
        obj = rng.choice([object(), None, CheckerPublic])
        if passed is None and rng.random() < .5:
            how, v = outcome(M.checkPermission, perm, obj)
        elif rng.random() < .5:
            how, v = outcome(M.checkPermission, perm, obj, passed)
        else:
            how, v = outcome(lambda: M.checkPermission(
                perm, obj, interaction=passed))
        asked = passed if passed is not None else current
        desc = '%r, passed %s, current %s: %s %r' % (
            perm, passed and passed.answer, current and current.answer,
            how, v)
        if perm is None or perm is CheckerPublic:
            if how != 'ok' or v is not True:
                self.bad('public', desc)
            asked = None
        elif asked is None:
            self.ctx.count('no_interaction')
            if how != 'raise' or type(v) is not NoInteraction:
                self.bad('none', desc)
        elif isinstance(asked.answer, Exception):
            if how != 'raise' or v is not asked.answer:
                self.bad('interaction-error', desc)
        elif how != 'ok' or bool(v) != bool(asked.answer):
            self.bad('interaction-answer', desc)
        for it in (passed, current):
            if it is not None and it is not asked and it.asked:
                self.bad('asked', 'asked without need: ' + desc)
        if asked is not None and [(p is perm, o is obj) for p, o in
                                  asked.asked] != [(True, True)]:
            self.bad('asked', 'asked %r: %s' % (asked.asked, desc))
        self.ctx.count('questions')
        self.ctx.seen(('odd', str(perm), how, passed is None,
                       current is None, str(v)[:9]))
        M.endInteraction()
        M.endInteraction()


def default_policy(ctx, rng):
    """The paranoid policy is in force without any configuration."""
    if M.getSecurityPolicy() is not S.ParanoidSecurityPolicy:
        # by behaviour
        pass
    sys_only = rng.random() < .5
    parts = [ZT.Participation(M.system_user) for i in range(rng.randrange(3))]
    if not sys_only:
        parts.append(ZT.Participation(principal(rng)))
        rng.shuffle(parts)
    M.newInteraction(*parts)
    try:
        allows = all(p.principal is M.system_user for p in parts)
        got = M.checkPermission('x', object())
        if bool(got) != allows:
            ctx.fail('default', 'the default policy gives %r for %r' % (
                got, [p.principal for p in parts]))
        if not M.checkPermission(CheckerPublic, object()):
            ctx.fail('default', 'the default policy refuses public access')
        if [p.interaction for p in parts] != [M.getInteraction()] * len(
                parts):
            ctx.fail('default', 'participations not attached')
        ctx.count('defaults')
        ctx.seen(('default', len(parts), allows))
    finally:
        M.endInteraction()


def run(ctx):
    for i, rng in ctx.cases('default', 300, 3000):
        with ctx.case():
            default_policy(ctx, rng)
    for i, rng in ctx.cases('histories', 4000, 100000):
        with ctx.case():
            r = Run(ctx, rng)
            for step in range(rng.randrange(5, 40)):
                op = rng.choice([r.new, r.add, r.add, r.remove, r.remove,
                                 r.change, r.claim, r.check, r.check, r.check, r.odd])
                r.log.append(op.__name__)
                op()
                r.verify()
