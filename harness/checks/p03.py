"""P03: a checker decides by its permission tables, and only by them."""
from common import *  # noqa
from zope.security import management as M


class Obj:
    pass


class Iterable:
    def __iter__(self):
        return iter(())


class Seq:
    def __getitem__(self, i):
        raise IndexError


class Both(Iterable, Seq):
    pass


class SlotSeq:
    __slots__ = ()

    def __getitem__(self, i):
        raise IndexError


class Dyn:
    def __getattr__(self, name):
        if name == '__iter__':
            return lambda: iter(())
        raise AttributeError(name)


class DynSeq:
    def __getattr__(self, name):
        if name == '__getitem__':
            return lambda i: i
        raise AttributeError(name)


class Str(str):
    pass


class Table(dict):
    pass


class Perm:
    """A permission that is no string, and equal to everything."""

    def __init__(self, ok=True):
        self.ok = ok

    def __eq__(self, other):
        return True

    __hash__ = None


class Answer:
    def __init__(self, value):
        self.value = value

    def __bool__(self):
        if isinstance(self.value, Exception):
            raise self.value
        return self.value


class Boom(Exception):
    pass


OBJECTS = [Obj, Iterable, Seq, Both, SlotSeq, Dyn, DynSeq, list, dict, int,
           object, lambda: 'text', lambda: Obj, lambda: iter(()),
           lambda: Proxy(Obj(), Z.Checker({})),
           lambda: Proxy(Iterable(), Z.Checker({}))]
PERMS = ['p1', 'p2', 'zope.Public', 'zope.View', '', 'None', '\u00e9',
         'CheckerPublic', 0, False, True, 1.5, (), ('p1',), b'p1']
# 1.5 etc. are no sensible permissions, but they are not None either.


def random_table(rng, names, cls=None):
    table = (cls or rng.choice([dict, dict, dict, Table]))()
    density = rng.choice([0, .1, .3, .7, 1])
    for name in names:
        if rng.random() < density:
            table[name] = random_perm(rng)
    return table


def random_perm(rng):
    r = rng.random()
    if r < .3:
        return CheckerPublic
    if r < .4:
        return None
    if r < .45:
        return Perm()
    if r < .47:
        return Z.CP_HACK_XXX    # not the public permission
    return rng.choice(PERMS)


def has(obj, name):
    return hasattr(obj, name)


def model(tables, kind, obj, name):
    """('ok',) / ('forbidden', name) / ('ask', permission, name)"""
    perm = tables[kind].get(name)
    if perm is None:
        if kind == 'get':
            if name in ALWAYS_READABLE:
                return ('ok',)
            if name == '__iter__' and not has(obj, '__iter__'):
                if has(obj, '__getitem__'):
                    return model(tables, kind, obj, '__getitem__')
                return ('ok',)
        return ('forbidden', name)
    if perm is CheckerPublic:
        return ('ok',)
    return ('ask', perm, name)


SPECIAL = sorted(ALWAYS_READABLE) + [
    '__iter__', '__getitem__', '__len__', '__str__', '__call__',
    '__setattr__', '__dict__', '__module__', '__doc__', '__next__',
    '__implemented__', '__provides__', '__3pow__', '__reduce__']


def one(ctx, rng):
    names = [random_name(rng) for _ in range(rng.randrange(1, 6))]
    names += rng.sample(SPECIAL, rng.randrange(1, 6))
    if rng.random() < .5:
        names += ['__iter__', '__getitem__']
    # near misses of the names that are special
    for _ in range(2):
        n = rng.choice(SPECIAL)
        k = rng.randrange(6)
        names.append([n[:-1], n[1:], n + 'x', n.upper(), n[::-1],
                      n.strip('_')][k])
    tables = {'get': random_table(rng, names), 'set': None}
    how = rng.choice(['both', 'both', 'kw', 'default', 'empty', 'shared'])
    if how == 'both':
        tables['set'] = random_table(rng, names)
        checker = Z.Checker(tables['get'], tables['set'])
    elif how == 'kw':
        tables['set'] = random_table(rng, names)
        checker = Z.Checker(get_permissions=tables['get'],
                            set_permissions=tables['set'])
    elif how == 'default':
        checker = Z.Checker(tables['get'])
        tables['set'] = {}
    elif how == 'empty':
        tables['set'] = {}
        checker = Z.Checker(tables['get'], tables['set'])
    else:
        tables['set'] = tables['get']
        checker = Z.Checker(tables['get'], tables['set'])
    if checker.get_permissions is not tables['get']:
        ctx.fail('table-copied', 'the read table is not the one given')
    if how != 'default' and checker.set_permissions is not tables['set']:
        ctx.fail('table-copied', 'the write table is not the one given')
    asked = []
    state = {'mode': None, 'grants': set(), 'exc': None}

    def decide(permission, object):
        if state['mode'] == 'raise':
            raise state['exc']
        ok = any(permission is g for g in state['grants_list'])
        if state['mode'] == 'odd':
            return rng2.choice(([1, 'yes', [0], Answer(True)] if ok
                                else [0, '', [], None, Answer(False)]))
        if state['mode'] == 'badbool':
            return Answer(state['exc'])
        if state['mode'] == 'mutate':
            # changes made meanwhile come too late for this access
            for t in (tables['get'], tables['set']):
                t.clear()
        if state['mode'] == 'end':
            M.endInteraction()
        return ok
    rng2 = rng
    inter = None

    def fresh_interaction():
        it = Interaction(decide)
        set_interaction(it)
        return it
    inter = fresh_interaction()
    objs = [rng.choice(OBJECTS)() for _ in range(2)]
    for step in range(rng.randrange(5, 25)):
        r = rng.random()
        if r < .15:
            t = tables[rng.choice(['get', 'set'])]
            if not (how == 'default' and t is tables['set']):
                n = rng.choice(names)
                if rng.random() < .4:
                    t.pop(n, None)
                else:
                    t[n] = random_perm(rng)
        elif r < .2:
            inter = fresh_interaction()
        elif r < .22:
            clear_interaction()
            inter = None
        elif inter is None:
            inter = fresh_interaction()
        kind = rng.choice(['get', 'get', 'set'])
        name = rng.choice(names) if rng.random() < .85 else random_name(rng)
        if rng.random() < .05:
            name = Str(name)
        obj = rng.choice(objs)
        want = model(tables, kind, obj, name)
        perm = tables[kind].get(name)
        pid = checker.permission_id(name) if kind == 'get' else \
            checker.setattr_permission_id(name)
        if pid is not perm:
            ctx.fail('permission-id', 'permission id of %s %r: %r, in the '
                     'table %r' % (kind, name, pid, perm))
        mode = rng.choice(['plain', 'plain', 'plain', 'plain', 'odd', 'raise',
                           'badbool', 'mutate', 'end'])
        if mode == 'mutate' and how == 'default':
            mode = 'plain'
        if inter is None:
            mode = 'plain'
        state['mode'] = mode
        state['exc'] = Boom('boom') if rng.random() < .7 else \
            rng.choice([KeyError('k'), AttributeError('a'), ValueError()])
        state['grants_list'] = []
        if want[0] == 'ask' and rng.random() < .5:
            state['grants_list'] = [want[1]]
        elif rng.random() < .5:
            # everything but the permission in question
            state['grants_list'] = [p for t in tables.values()
                                    for p in t.values()
                                    if want[0] != 'ask' or p is not want[1]]
        grant = want[0] == 'ask' and any(
            want[1] is g for g in state['grants_list'])
        if inter is not None:
            del inter.asked[:]
        via = rng.choice(['check', 'check_getattr', 'proxy'])
        if kind == 'set':
            f = checker.check_setattr
            via = 'check_setattr'
        elif via == 'check':
            f = checker.check
        elif via == 'check_getattr':
            f = checker.check_getattr
        else:
            f = getattr(checker, '__setitem__', checker.check)
        f2 = lambda o=obj, n=name: f(o, n)  # noqa
        got, value = outcome(f2)
        asked = list(inter.asked) if inter is not None else []
        describe = '%s %s %r on %s, table entry %r, mode %s' % (
            via, kind, name[:60], type(obj).__name__, perm, mode)
        ctx.count('decisions')
        ctx.seen((via, kind, name if len(name) < 40 else 'long',
                  type(obj).__name__, repr(perm)[:20], mode, got, want[0]))
        check_outcome(ctx, describe, want, grant, mode, inter, state, obj,
                      got, value, asked)
        if mode in ('end',) and asked:
            inter = None
    ctx.sample(describe)


def check_outcome(ctx, describe, want, grant, mode, inter, state, obj, got,
                  value, asked):
    def bad(key, msg):
        ctx.fail(key, '%s: %s (%s %r, asked %r)' % (
            describe, msg, got, value if got == 'ok' else (
                type(value), value.args), [a[0] for a in asked]))
    if want[0] == 'ok':
        if asked:
            bad('asked-needlessly', 'the interaction was asked')
        if got != 'ok':
            bad('refused-public', 'refused')
        elif value is not None:
            bad('result', 'not None')
        ctx.count('let_pass')
        return
    if want[0] == 'forbidden':
        if asked:
            bad('asked-needlessly', 'the interaction was asked')
        if got == 'ok':
            return bad('granted-undeclared', 'not refused')
        if type(value) is not ForbiddenAttribute:
            return bad('exception-type', 'should be forbidden')
        if len(value.args) != 2 or value.args[0] != want[1] \
                or value.args[1] is not obj:
            bad('exception-args', 'wrong arguments')
        ctx.count('forbidden')
        return
    _, perm, name = want
    if inter is None:
        if got == 'ok':
            return bad('granted-without-interaction', 'not refused')
        ctx.count('no_interaction')
        return
    if len(asked) != 1:
        return bad('asked-count', 'asked %d times' % len(asked))
    if asked[0][0] is not perm or asked[0][1] is not obj:
        return bad('asked-wrong', 'asked about another permission or object')
    if mode == 'raise' or mode == 'badbool':
        if got == 'ok' or value is not state['exc']:
            bad('exception-lost', 'the interaction raised %r'
                % (state['exc'],))
        ctx.count('interaction_failed')
        return
    if grant:
        if got != 'ok':
            return bad('refused-granted', 'refused')
        if value is not None:
            bad('result', 'not None')
        ctx.count('granted')
        return
    if got == 'ok':
        return bad('granted-denied', 'not refused')
    if type(value) is not Unauthorized:
        return bad('exception-type', 'should be unauthorized')
    if len(value.args) != 3 or value.args[0] is not obj \
            or value.args[1] != name or value.args[2] is not perm:
        bad('exception-args', 'wrong arguments')
    ctx.count('unauthorized')


def every_name(ctx, rng, i):
    """One long sweep: all special and mined names against empty tables."""
    clear_interaction()
    inter = Interaction(lambda p, o: True)
    set_interaction(inter)
    names = sorted(set(SPECIAL) | set(mined_names())
                   | {random_name(rng) for _ in range(60)})
    cls = OBJECTS[i % len(OBJECTS)]
    obj = cls()
    for tables in ({'get': {}, 'set': {}},
                   {'get': {'other': CheckerPublic},
                    'set': {'other': CheckerPublic}}):
        checker = Z.Checker(tables['get'], tables['set'])
        for name in names:
            for kind in ('get', 'set'):
                want = model(tables, kind, obj, name)
                f = checker.check_setattr if kind == 'set' else checker.check
                got, value = outcome(f, obj, name)
                ctx.count('decisions')
                ctx.seen(('sweep', kind, name, cls.__name__, got))
                check_outcome(ctx, 'sweep %s %r on %s' % (
                    kind, name, type(obj).__name__), want, False, 'plain',
                    inter, {}, obj, got, value, list(inter.asked))
    clear_interaction()


def run(ctx):
    for i, rng in ctx.cases('sweep', 32, 320):
        with ctx.case():
            every_name(ctx, rng, i)
    for i, rng in ctx.cases('random', 6000, 200000):
        with ctx.case():
            one(ctx, rng)
            clear_interaction()
