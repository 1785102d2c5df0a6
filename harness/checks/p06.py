"""P06: a combined checker is the logical or of its parts."""
import operator

from common import *  # noqa


class Boom(Exception):
    pass


class Obj:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return 'value'

    def __setattr__(self, name, value):
        pass

    def __delattr__(self, name):
        pass

    def __getitem__(self, key):
        return 'item'

    def __setitem__(self, key, value):
        pass

    def __delitem__(self, key):
        pass

    def __len__(self):
        return 1

    def __call__(self, *args):
        return 'called'

    def __add__(self, other):
        return 'sum'

    def __iadd__(self, other):
        return 'isum'

    def __neg__(self):
        return 'neg'

    def __int__(self):
        return 4

    def __contains__(self, x):
        return True

    def __iter__(self):
        return iter(())

    def __index__(self):
        return 3


OPS = {
    'a': ('get', lambda p: p.a),
    'b': ('get', lambda p: getattr(p, 'b')),
    '__getitem__': ('get', lambda p: p[0]),
    '__setitem__': ('get', lambda p: operator.setitem(p, 0, 1)),
    '__delitem__': ('get', lambda p: operator.delitem(p, 0)),
    '__len__': ('get', len),
    '__call__': ('get', lambda p: p(1)),
    '__add__': ('get', lambda p: p + 1),
    '__iadd__': ('get', lambda p: operator.iadd(p, 1)),
    '__neg__': ('get', lambda p: -p),
    '__int__': ('get', int),
    '__contains__': ('get', lambda p: 1 in p),
    '__iter__': ('get', iter),
    '__index__': ('get', operator.index),
}
SET_OPS = {
    'a': ('set', lambda p: setattr(p, 'a', 1)),
    'b': ('set', lambda p: delattr(p, 'b')),
    '__len__': ('set', lambda p: setattr(p, '__len__', 1)),
    '__call__': ('set', lambda p: delattr(p, '__call__')),
}
NAMES = sorted(OPS) + ['__hash__', '__class__', 'zzz', 'long' * 20]
OUTCOMES = ['ok', 'forbidden', 'unauthorized']


class Leaf:
    """A leaf with a planned decision for each kind and name.

    Real checkers get their decisions by tables and the interaction.
    """

    def __init__(self, run, number):
        self.run = run
        self.number = number
        self.exc = {}
        self.plan = {}

    def decide(self, kind, name):
        return self.plan.get((kind, name), 'forbidden')


class CustomLeaf(Leaf):
    get_permissions = {}
    set_permissions = {}

    def _do(self, kind, obj, name):
        self.run['order'].append((self.number, kind, name))
        if obj is not self.run['obj']:
            self.run['wrong'].append(obj)
        what = self.decide(kind, name)
        if what == 'ok':
            return
        self.exc[kind, name] = e = {
            'forbidden': lambda: ForbiddenAttribute(name, obj),
            'unauthorized': lambda: Unauthorized(obj, name, self.number),
            'error': lambda: Boom(self.number),
            'base': lambda: Forbidden(name, obj),
            'subforbidden': lambda: SubForbidden(name, obj),
            'subunauthorized': lambda: SubUnauthorized(obj, name),
        }[what]()
        raise e

    def check(self, obj, name):
        self._do('get', obj, name)

    check_getattr = check

    def check_setattr(self, obj, name):
        self._do('set', obj, name)

    def proxy(self, value):
        return value


class SubForbidden(ForbiddenAttribute):
    pass


class SubUnauthorized(Unauthorized):
    pass


class Node:
    def __init__(self, a, b):
        self.a, self.b = a, b


def build(rng, run, depth, leaves):
    if depth and rng.random() < .75:
        left, ca = build(rng, run, depth - 1, leaves)
        right, cb = build(rng, run, depth - 1, leaves)
        cls = Z.CombinedChecker
        if rng.random() < .2:
            cls = type('MyCombined', (Z.CombinedChecker,), {})
        return Node(left, right), cls(ca, cb)
    n = len(leaves)
    if rng.random() < .5:
        leaf = CustomLeaf(run, n)
        kinds = OUTCOMES + ['error', 'base', 'subforbidden',
                            'subunauthorized']
        weights = [2, 4, 4, .5, .3, .7, .7]
        leaf.checker = leaf
    else:
        leaf = Leaf(run, n)
        kinds = OUTCOMES + ['error', 'public']
        weights = [2, 4, 4, .5, 1]
        get, set_ = {}, {}
        leaf.tables = {'get': get, 'set': set_}
        leaf.checker = Z.Checker(get, set_)
    leaf.real = not isinstance(leaf, CustomLeaf)
    for kind in ('get', 'set'):
        for name in NAMES:
            what = rng.choices(kinds, weights)[0]
            leaf.plan[kind, name] = what
            if leaf.real:
                t = leaf.tables[kind]
                if what == 'public':
                    t[name] = CheckerPublic
                elif what != 'forbidden':
                    t[name] = (n, what, kind)
                elif kind == 'get' and name in ALWAYS_READABLE:
                    leaf.plan[kind, name] = 'public'
    leaves.append(leaf)
    return leaf, leaf.checker


def evaluate(node, kind, name, order):
    """The truth table."""
    if not isinstance(node, Node):
        what = node.decide(kind, name)
        if not node.real or what in ('ok', 'unauthorized', 'error'):
            order.append((node.number, kind, name))
        if what in ('ok', 'public'):
            return ('ok', None)
        if what in ('forbidden', 'subforbidden'):
            return ('forbidden', node)
        if what in ('unauthorized', 'subunauthorized'):
            return ('unauthorized', node)
        return (what, node)
    first = evaluate(node.a, kind, name, order)
    if first[0] == 'ok' or first[0] in ('error', 'base'):
        return first
    second = evaluate(node.b, kind, name, order)
    if first[0] == 'unauthorized' and second[0] == 'forbidden':
        return first
    return second


def size(node):
    return size(node.a) + size(node.b) if isinstance(node, Node) else 1


def shape(node):
    return '(%s%s)' % (shape(node.a), shape(node.b)) \
        if isinstance(node, Node) else 'cr'[node.real]


def one(ctx, rng):
    run = {'order': [], 'wrong': [], 'obj': Obj()}
    obj = run['obj']
    leaves = []
    depth = rng.choice([1, 1, 2, 2, 3, 4])
    left, ca = build(rng, run, depth - 1, leaves)
    right, cb = build(rng, run, depth - 1, leaves)
    root, checker = Node(left, right), Z.CombinedChecker(ca, cb)
    boom = Boom('interaction')

    def decide(permission, object):
        n, what, kind = permission
        run['order'].append((n, kind, run['name']))
        if object is not obj:
            run['wrong'].append(object)
        if what == 'error':
            raise boom
        return what == 'ok'
    set_interaction(Interaction(decide))
    p = Proxy(obj, checker)
    for step in range(12):
        kind = rng.choice(['get', 'get', 'set'])
        name = rng.choice(NAMES)
        run['name'] = name
        via = rng.choice(['check', 'check_getattr', 'proxy'])
        ops = OPS if kind == 'get' else SET_OPS
        if via == 'proxy' and name not in ops:
            name = run['name'] = rng.choice(sorted(ops))
        if via == 'proxy':
            f = (lambda op=ops[name][1]: op(p))
        elif kind == 'set':
            via = 'check_setattr'
            f = (lambda: checker.check_setattr(obj, name))
        else:
            f = (lambda m=getattr(checker, via): m(obj, name))
        order = []
        want, node = evaluate(root, kind, name, order)
        del run['order'][:]
        del run['wrong'][:]
        how, e = outcome(f)
        got = list(run['order'])
        desc = '%s %s %s on %s: expected %s' % (via, kind, name[:20],
                                                shape(root), want)
        ctx.count('decisions')
        ctx.count('outcome_' + want)
        ctx.seen((via, kind, name[:20], shape(root), want,
                  tuple(o[0] for o in order)), len(order) > 0)

        def bad(key, msg):
            ctx.fail(key, '%s: %s' % (desc, msg),
                     'plans %r, got %s %r, order %r, expected %r' % (
                         [(x.number, x.plan[kind, name]) for x in leaves],
                         how, e, got, order))
        if run['wrong']:
            bad('wrong-object', 'asked about another object')
        if ctx.pure and via == 'proxy' and isinstance(e, AttributeError) \
                and got == order + order:
            # Python asks again by way of __getattr__
            got = order
        if got != order:
            bad('order', 'the parts were asked otherwise')
        if want == 'ok':
            if how != 'ok':
                bad('refused', 'refused')
            continue
        if how == 'ok':
            bad('granted', 'not refused')
            continue
        if want == 'forbidden':
            if not isinstance(e, ForbiddenAttribute):
                bad('exception', 'raised %r' % (e,))
            elif e.args[0] != name or e.args[1] is not obj:
                bad('exception-args', 'raised %r' % (e.args,))
        elif want == 'unauthorized':
            if not isinstance(e, Unauthorized):
                bad('exception', 'raised %r' % (e,))
            elif e.args[0] is not obj or e.args[1] != name:
                bad('exception-args', 'raised %r' % (e.args,))
            elif not node.real:
                if e is not node.exc[kind, name]:
                    bad('exception-first', 'raised that of another part')
            elif e.args[2] != (node.number, node.plan[kind, name], kind):
                bad('exception-first', 'raised that of another part: %r' % (
                    e.args,))
        else:
            exp = boom if node.real else node.exc[kind, name]
            if e is not exp:
                bad('error-lost', 'raised %r, not %r' % (e, exp))
    clear_interaction()
    ctx.sample(desc)


def run(ctx):
    for i, rng in ctx.cases('trees', 6000, 150000):
        with ctx.case():
            one(ctx, rng)
