"""Model of the interactions of one thread, and random programs over it.

Used by P08 (one thread) and P09 (many)."""
from common import *  # noqa
from zope.security import management as M
from zope.security import testing as ZT
from zope.security.interfaces import NoInteraction


class Boom(Exception):
    pass


class Inter:
    """An interaction with an owner, which says what it is asked."""

    def __init__(self, owner, participations, grants):
        self.owner = owner
        self.args = participations
        self.grants = grants
        self.asked = []
        self.falsy = False
        self.participations = list(participations)

    def checkPermission(self, permission, object):
        self.asked.append((permission, object))
        hook = self.owner.hook
        if hook is not None:
            hook(self, permission, object)
        return permission in self.grants

    def __bool__(self):
        return not self.falsy

    def __eq__(self, other):
        return True             # must go by identity

    __hash__ = None


class Target:
    def __init__(self):
        self.a = self.b = self.c = 1


PERMS = ['pa', 'pb', 'pc']


class Runner:
    """Performs random steps and compares with the model after each."""

    def __init__(self, ctx, rng, proxies, hook=None, policy_global=True,
                 fail=None):
        self.ctx = ctx
        self.rng = rng
        self.current = None
        self.previous = None
        self.hook = hook
        self.proxies = proxies
        self.policy = None          # not known
        self.log = []
        self.policy_global = policy_global
        self.fail = fail or ctx.fail
        self.made = 0
        self.counts = {}
        self.sigs = set()

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def bad(self, key, msg):
        self.fail(key, '%s; after %r' % (msg, self.log[-12:]))

    # -- the policy that all threads share -------------------------------------

    def verify(self):
        q = M.queryInteraction()
        if q is not self.current:
            self.bad('query', 'queryInteraction gave %r, not %r' % (
                q, self.current))
        how, v = outcome(M.getInteraction)
        if self.current is None:
            if how != 'raise' or type(v) is not NoInteraction:
                self.bad('get-none', 'getInteraction without one: %s %r'
                         % (how, v))
        elif how != 'ok' or v is not self.current:
            self.bad('get', 'getInteraction: %s %r' % (how, v))
        self.count('verified')

    def step(self):
        rng = self.rng
        ops = [self.new, self.new, self.end, self.end, self.restore,
               self.access, self.access, self.access, self.permission,
               self.query, self.helper, self.nested_helper, self.create]
        if self.policy_global:
            ops += [self.change_policy, self.failing_new]
        op = rng.choice(ops)
        self.log.append(op.__name__)
        before = (self.current is not None, self.previous is not None)
        op()
        self.verify()
        self.sigs.add((op.__name__,) + before + (
            tuple(self.log[-3:]), self.current is not None))

    def participations(self):
        return [ZT.Participation(ZT.Principal('u%d' % i))
                for i in range(self.rng.randrange(4))]

    def new(self):
        parts = self.participations()
        expect_failure = self.current is not None
        self.expected_args = parts
        how, v = outcome(M.newInteraction, *parts)
        if expect_failure:
            self.count('refused_new')
            if how != 'raise' or type(v) is not M.ExistingInteraction:
                self.bad('new-twice', 'newInteraction during another: %s %r'
                         % (how, v))
            if any(p.interaction is not None for p in parts):
                self.bad('new-twice-effect', 'a refused newInteraction took '
                         'the participations')
            return
        if how != 'ok':
            self.bad('new', 'newInteraction raised %r' % (v,))
            return
        self.adopt(parts)

    def adopt(self, parts=None):
        q = M.queryInteraction()
        self.count('new')
        self.current = q
        if q is None:
            self.bad('new-none', 'no interaction after newInteraction')
        elif isinstance(q, Inter):
            if q.owner is not self and self.policy_global:
                self.bad('new-owner', 'the interaction is that of another')
            if parts is not None and (
                    len(q.args) != len(parts)
                    or any(a is not b for a, b in zip(q.args, parts))):
                self.bad('new-args', 'the policy got %r' % (q.args,))
            q.owner = self
            self.made += 1

    def failing_new(self):
        """The policy fails."""
        if self.current is not None:
            return
        exc = self.rng.choice([Boom('policy'), ValueError('v'),
                               AttributeError('a')])

        def policy(*args):
            raise exc
        last = M.setSecurityPolicy(policy)
        try:
            how, v = outcome(M.newInteraction, *self.participations())
        finally:
            M.setSecurityPolicy(last)
        self.count('failed_new')
        if how != 'raise' or v is not exc:
            self.bad('policy-error', 'the policy raised %r, newInteraction '
                     '%s %r' % (exc, how, v))

    def end(self):
        how, v = outcome(M.endInteraction)
        if how != 'ok' or v is not None:
            self.bad('end', 'endInteraction: %s %r' % (how, v))
        self.previous = self.current
        self.current = None
        self.count('end')

    def restore(self):
        how, v = outcome(M.restoreInteraction)
        if how != 'ok' or v is not None:
            self.bad('restore', 'restoreInteraction: %s %r' % (how, v))
        self.current = self.previous
        self.count('restore')

    def query(self):
        self.verify()

    def access(self):
        """A check uses the interaction that is current."""
        p, raw, tables = self.rng.choice(self.proxies)
        name = self.rng.choice(sorted(tables['get']))
        kind = self.rng.choice(['get', 'set'])
        perm = tables[kind].get(name)
        current = self.current
        if isinstance(current, Inter):
            n = len(current.asked)
        f = (lambda: getattr(p, name)) if kind == 'get' else (
            lambda: setattr(p, name, 1))
        if kind == 'get' and self.rng.random() < .3:
            f = (lambda: Z.canAccess(p, name))
            how, v = outcome(f)
            if how == 'ok':
                how, v = ('ok', 1) if v else ('raise', Unauthorized())
        else:
            how, v = outcome(f)
        self.count('accesses')
        if current is None:
            if how == 'ok':
                self.bad('access-none', 'granted without an interaction')
            return
        if not isinstance(current, Inter):
            # the paranoid policy, from a helper
            if how == 'ok':
                self.bad('access-paranoid', 'granted by the paranoid policy')
            return
        if len(current.asked) != n + 1:
            self.bad('access-asked', 'the current interaction was asked %d '
                     'times' % (len(current.asked) - n))
        elif current.asked[-1][0] != perm or current.asked[-1][1] is not raw:
            self.bad('access-asked', 'it was asked %r' % (current.asked[-1],))
        if (how == 'ok') != (perm in current.grants):
            self.bad('access', 'access %s although the interaction grants %r,'
                     ' not %r' % (how, current.grants, perm))
        self.count('granted' if how == 'ok' else 'refused')

    def permission(self):
        perm = self.rng.choice(PERMS + [None, CheckerPublic])
        obj = object()
        current = self.current
        how, v = outcome(M.checkPermission, perm, obj)
        if perm is None or perm is CheckerPublic:
            if (how, v) != ('ok', True):
                self.bad('permission-public', '%s %r' % (how, v))
        elif current is None:
            if how != 'raise' or type(v) is not NoInteraction:
                self.bad('permission-none', '%s %r' % (how, v))
        elif isinstance(current, Inter):
            if how != 'ok' or bool(v) != (perm in current.grants):
                self.bad('permission', '%s %r, grants %r' % (
                    how, v, current.grants))
            if current.asked[-1][1] is not obj:
                self.bad('permission', 'another interaction was asked')

    def change_policy(self):
        """Changing the policy affects later interactions only."""
        tag = object()
        policy = make_policy(self, tag)
        last = M.setSecurityPolicy(policy)
        if self.policy is not None and last is not self.policy:
            self.bad('policy-last', 'setSecurityPolicy returned %r, not %r'
                     % (last, self.policy))
        if M.getSecurityPolicy() is not policy:
            self.bad('policy-get', 'getSecurityPolicy does not give it')
        self.policy = policy
        self.count('policies')

    def helper(self):
        self.with_helper(1)

    def nested_helper(self):
        self.with_helper(self.rng.randrange(2, 4))

    def with_helper(self, depth):
        """testing.interaction"""
        had = self.current
        fails = self.rng.random() < .4
        exc = self.rng.choice([Boom('body'), KeyError('b'),
                               AttributeError('a')])
        inside = self.rng.randrange(3)
        try:
            with ZT.interaction('user%d' % depth) as principal:
                if had is not None:
                    if M.queryInteraction() is not had:
                        self.bad('helper-existing', 'the helper replaced an '
                                 'interaction')
                    if principal is not None:
                        self.bad('helper-principal', 'gave %r'
                                 % (principal,))
                else:
                    self.adopt()
                    if principal is None or principal.id != 'user%d' % depth:
                        self.bad('helper-principal', 'gave %r'
                                 % (principal,))
                    q = M.queryInteraction()
                    parts = getattr(q, 'participations', [])
                    if [p.principal for p in parts] != [principal]:
                        self.bad('helper-participation', 'the interaction '
                                 'has %r' % (parts,))
                self.verify()
                for i in range(inside):
                    self.access()
                if depth > 1:
                    self.with_helper(depth - 1)
                self.verify()
                if fails:
                    raise exc
        except (Boom, KeyError, AttributeError) as e:
            if not fails or e is not exc:
                self.bad('helper-error', 'raised %r' % (e,))
        else:
            if fails:
                self.bad('helper-error', 'swallowed %r' % (exc,))
        if had is None:
            self.previous = self.current
            self.current = None
        self.count('helpers')
        self.verify()

    def create(self):
        """testing.create_interaction"""
        how, v = outcome(ZT.create_interaction, 'creator')
        if self.current is not None:
            if how != 'raise' or type(v) is not M.ExistingInteraction:
                self.bad('create-twice', '%s %r' % (how, v))
            return
        if how != 'ok' or v.id != 'creator':
            self.bad('create', '%s %r' % (how, v))
            return
        self.adopt()


def make_policy(runner, tag):
    rng = runner.rng

    def policy(*participations):
        grants = {p for p in PERMS if rng.random() < .5}
        it = Inter(runner, participations, grants)
        it.tag = tag
        it.falsy = rng.random() < .3
        return it
    return policy
