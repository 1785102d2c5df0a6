"""P22: watching checkers changes no decision and logs each one.

Programs: random programs are run with and without watching, and their
transcripts (see agents.py) must be the same.  Log: for single accesses with
known tables and answers, what standard error receives is compared with what
must have been decided.
"""
import os
import tempfile

from agents import *  # noqa
from p14 import keep

VERBOSITY = 0


class Captured:
    """What is written to standard error meanwhile, by whatever way."""

    def __init__(self):
        self.file = tempfile.TemporaryFile()

    def __enter__(self):
        self.saved = os.dup(2)
        os.dup2(self.file.fileno(), 2)
        return self

    def lines(self):
        """What has been added."""
        self.file.seek(0)
        text = self.file.read().decode('utf-8', 'surrogateescape')
        self.file.seek(0)
        self.file.truncate()
        return text.split('\n')[:-1] if text else []

    def __exit__(self, *exc):
        os.dup2(self.saved, 2)
        os.close(self.saved)
        self.file.close()


MOODS = {
    'value': ValueError('no repr'), 'attribute': AttributeError('__repr__'),
    'forbidden': ForbiddenAttribute('x', None),
    'unauthorized': Unauthorized('x', 'y', 'z'),
    'recursion': RecursionError('too deep')}


def mood(self):
    """Some objects cannot show themselves."""
    m = self.__dict__.get('mood')
    if m in MOODS:
        raise MOODS[m]
    return m


class Actor:
    """Can do everything, and says so."""

    def __init__(self, label):
        self.label = label
        self.a = 1
        self.m = 2

    def __repr__(self):
        return mood(self) or '<Actor %s>' % self.label

    def __call__(self, *args):
        return 1
    __getitem__ = __contains__ = __call__

    def __iter__(self):
        return iter((1,))

    def __next__(self):
        return 1

    def __len__(self):
        return 1
    __int__ = __index__ = __len__

    def __float__(self):
        return 1.5

    def __setitem__(self, k, v):
        pass

    def __delitem__(self, k):
        pass


def _op(self, *other):
    return 1


for _n in UNARY:
    setattr(Actor, '__%s__' % _n, _op)
for _n in BINARY:
    for _k in ('', 'r', 'i'):
        setattr(Actor, '__%s%s__' % (_k, _n), _op)


class Missing:
    """Has nothing at all."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return mood(self) or '<Missing %s>' % self.label


def accesses():
    """(function of the proxy, name, 'get' or 'set')"""
    r = []

    def add(name, f, kind='get'):
        r.append((f, name, kind))
    add('__call__', lambda p: p())
    add('__getitem__', lambda p: p[1])
    add('__getitem__', lambda p: p[1:2])
    add('__setitem__', lambda p: _setitem(p, 1, 2))
    add('__delitem__', lambda p: _delitem(p, 1))
    add('__contains__', lambda p: 1 in p)
    add('__iter__', iter)
    add('__next__', next)
    add('__len__', len)
    add('__int__', int)
    add('__float__', float)
    add('__index__', operator.index)
    for n, f in UNARY.items():
        add('__%s__' % n, f)
    for n, f in BINARY.items():
        add('__%s__' % n, lambda p, f=f: f(p, None))
        add('__r%s__' % n, lambda p, f=f: f(None, p))
    for n, f in INPLACE.items():
        add('__i%s__' % n, lambda p, f=f: f(p, None))
    for n in ('a', 'm', 'missing', '__class__', '__name__', '__parent__',
              '_private', '\u00e9t\u00e9', 'x y', '%s'):
        add(n, lambda p, n=n: getattr(p, n))
        add(n, lambda p, n=n: setattr(p, n, Actor), 'set')
        add(n, lambda p, n=n: delattr(p, n), 'set')
    return r


def _setitem(p, k, v):
    p[k] = v


def _delitem(p, k):
    del p[k]


ACCESSES = accesses()
UNLOGGED = [hash, bool, lambda p: p == 1, lambda p: p < p]


class Model:
    """What a checker must decide."""

    def __init__(self, reads=None, writes=None, parts=None):
        self.reads = reads
        self.writes = writes
        self.parts = parts

    def decide(self, name, kind, inter, obj, bare_iter):
        """(allowed, events); allowed is None if the interaction fails."""
        if self.parts is not None:
            events = []
            denied = []
            for part in self.parts:
                ok, more = part.decide(name, kind, inter, obj, bare_iter)
                events += more
                if ok or ok is None:
                    return ok, events
                denied.append(more)
            return False, events
        perm = (self.reads if kind == 'get' else self.writes).get(name)
        if perm is None:
            if kind == 'get' and name in ALWAYS_READABLE:
                return True, [('Always', name)]
            if kind == 'get' and name == '__iter__' and bare_iter:
                return True, [('Granted', name)]
            return False, [('Forbidden', name)]
        if perm is not CheckerPublic:
            answer = inter.answers[perm]
            if answer == 'raise':
                return None, []
            if not answer:
                return False, [('Unauthorized', name)]
        if kind == 'get' and name in ALWAYS_READABLE:
            return True, [('Always', name)]
        return True, [('Granted', name)]


class Inter:
    participations = ()

    def __init__(self, rng):
        self.answers = {p: rng.choice([True, True, False, False, [1], 0,
                                       'raise']) for p in PS}

    def checkPermission(self, permission, object):
        a = self.answers[permission]
        if a == 'raise':
            raise Boom('interaction')
        return a


PS = ['p1', 'p2', 'p3', 'zope.Public']
KEYS = sorted({n for f, n, k in ACCESSES})
PROTECTED = []


def make(rng, depth=0):
    """(how, checker or None to look one up, model, class to declare for)"""
    how = rng.choice(['Checker', 'Checker', 'Checker', 'NamesChecker',
                      'InterfaceChecker', 'MultiChecker', 'sub'] + (
                          ['combined'] * 3 if depth < 2 else []) + (
                              ['declared', 'protected'] if not depth
                              else []))
    perms = PS + [CheckerPublic] * 3

    def table():
        k = rng.choice([.1, .5, .9])
        return {n: rng.choice(perms) for n in KEYS if rng.random() < k}
    if how == 'combined':
        a, b = make(rng, depth + 1), make(rng, depth + 1)
        return how, Z.CombinedChecker(a[1], b[1]), Model(
            parts=[a[2], b[2]])
    reads, writes = table(), table()
    if how == 'Checker':
        c = Z.Checker(reads, writes)
    elif how == 'sub':
        class Sub(Z.Checker):
            pass
        c = Sub(reads, writes)
    elif how == 'NamesChecker':
        perm = rng.choice(perms)
        reads = {n: perm for n in reads}
        writes = {}
        c = Z.NamesChecker(list(reads), perm)
    elif how == 'InterfaceChecker':
        perm = rng.choice(perms)
        reads = {'a': perm, 'm': perm, 'b': perm}
        writes = {}
        c = Z.InterfaceChecker(I2, perm)
    elif how == 'MultiChecker':
        writes = {}
        c = Z.MultiChecker([([n], p) for n, p in reads.items()])
    elif how == 'declared':
        class A(Actor):
            pass
        c = Z.Checker(reads, writes)
        Z.defineChecker(A, c)
        PROTECTED.append(A)
        return how, A, Model(reads, writes)
    else:
        class A(Actor):
            pass
        for n, p in reads.items():
            ZP.protectName(A, n, 'zope.Public' if p is CheckerPublic else p)
            if p == 'zope.Public':
                reads[n] = CheckerPublic
        for n, p in writes.items():
            ZP.protectSetAttribute(
                A, n, 'zope.Public' if p is CheckerPublic else p)
            if p == 'zope.Public':
                writes[n] = CheckerPublic
        PROTECTED.append(A)
        if not reads and not writes:
            Z.defineChecker(A, Z.Checker({}))
        return how, A, Model(reads, writes)
    return how, c, Model(reads, writes)


_label = itertools.count(1)


def log(ctx, rng, cap):
    """Some accesses by one checker."""
    how, c, model = make(rng)
    inter = Inter(rng)
    cls = rng.choice([Actor, Actor, Missing])
    label = 'nr%d' % next(_label)
    if isinstance(c, type):
        obj = c(label)
        cls = c
        p = ProxyFactory(obj)
        c = getChecker(p)
    else:
        obj = cls(label)
        if rng.random() < .1:
            obj = [label]
            cls = list
        p = Proxy(obj, c)
    if cls is not list and rng.random() < .25:
        obj.mood = rng.choice(sorted(MOODS) + [5])
    set_interaction(inter)
    cap.lines()
    try:
        for i in range(rng.randrange(3, 12)):
            r = rng.random()
            via = 'proxy'
            if r < .08:
                f = rng.choice(UNLOGGED)
                name, kind, call = None, None, lambda: f(p)
            elif r < .3:
                name = rng.choice(KEYS)
                via = rng.choice(['check', 'check_getattr', 'check_setattr',
                                  'canAccess', 'canWrite'])
                kind = 'set' if via in ('check_setattr', 'canWrite') \
                    else 'get'
                if via == 'canAccess':
                    def call():
                        return Z.canAccess(p, name)
                elif via == 'canWrite':
                    def call():
                        return Z.canWrite(p, name)
                else:
                    def call():
                        return getattr(c, via)(obj, name)
            else:
                f, name, kind = rng.choice(ACCESSES)

                def call():
                    return f(p)
            how_repr, before = outcome(repr, obj)
            if how_repr != 'ok':
                before = ''
                ctx.count('without_repr')
            # (accesses may change its class)
            bare_iter = not hasattr(obj, '__iter__')
            ended, exc = outcome(call)
            got = cap.lines()
            if name is None:
                want = []
            else:
                ok, want = model.decide(name, kind, inter, obj, bare_iter)
                decided = (
                    'Boom' if ok is None else 'let pass' if ok else
                    'Unauthorized' if refusal(want, model) == 'Unauthorized'
                    else 'ForbiddenAttribute')
                if ended == 'ok':
                    actual = 'let pass' if exc is not False or \
                        not via.startswith('can') else 'Unauthorized'
                elif type(exc) in (Boom, Unauthorized, ForbiddenAttribute):
                    actual = type(exc).__name__
                else:
                    actual = 'let pass' if via == 'proxy' else repr(exc)
                if actual != decided and via != 'canWrite' \
                        or ended != 'ok' and any(
                            exc is m for m in MOODS.values()):
                    ctx.fail('decision-' + via, '%s (%s) of %s by way of %s: '
                             '%s, should be %s' % (
                                 name, kind, before, via, actual, decided))
                if via == 'canWrite' and not ok and ok is not None \
                        and refusal(want, model) == 'Forbidden':
                    # then it asks if it can be read
                    want = want + model.decide(
                        name, 'get', inter, obj, bare_iter)[1]
            ctx.count('accesses')
            for w, n in want:
                ctx.count('decided_' + w)
            ctx.seen((how, cls.__name__, via, name, kind, tuple(want),
                      VERBOSITY))
            if VERBOSITY == 0:
                want = []
            elif VERBOSITY == 1:
                want = [w for w in want
                        if w[0] in ('Forbidden', 'Unauthorized')]
            if len(got) != len(want) and ctx.pure and via == 'proxy' \
                    and kind == 'get' and isinstance(exc, AttributeError) \
                    and got[:len(got) // 2] == got[len(got) // 2:]:
                # It is asked twice (see agents.py).
                got = got[:len(got) // 2]
            if not same(got, want, before):
                ctx.fail(
                    'log-%s-%s' % (how, via if via != 'proxy' else kind),
                    'accessing %s (%s) of %s by way of %s, checker by %s: '
                    'logged %r, expected %r' % (
                        name, kind, before, via, how, got, want))
            ctx.count('log_lines', len(got))
    finally:
        clear_interaction()
        while PROTECTED:
            Z.undefineChecker(PROTECTED.pop())


def refusal(events, model):
    """How the combination of what the parts raised ends."""
    return 'Unauthorized' if any(w == 'Unauthorized' for w, n in events) \
        else 'Forbidden'


def same(got, want, text):
    if len(got) != len(want):
        return False
    for line, (kind, name) in zip(got, want):
        others = {'Always', 'Granted', 'Forbidden', 'Unauthorized'} - {kind}
        head = line.split(':')[0]
        if kind not in head or any(o in head for o in others):
            return False
        if ' %s ' % name not in line or text not in line:
            return False
    return True


def default_checker(ctx, rng, cap):
    """Objects without declarations are watched, too."""
    obj = Actor('d%d' % next(_label))
    p = ProxyFactory(obj)
    for f, name, kind in rng.sample(ACCESSES, 8):
        cap.lines()
        before = repr(obj)
        exc = outcome(f, p)[1]
        got = cap.lines()
        read = kind == 'get' and name in ALWAYS_READABLE
        want = [('Always' if read else 'Forbidden', name)]
        if VERBOSITY == 0 or VERBOSITY == 1 and read:
            want = []
        ctx.count('default_accesses')
        ctx.seen(('default', name, kind, VERBOSITY))
        if len(got) == 2 and ctx.pure and isinstance(exc, AttributeError) \
                and got[0] == got[1]:
            got = got[:1]
        if not same(got, want, before):
            ctx.fail('log-default' if got or ctx.pure
                     else 'log-default-nothing',
                     '%s (%s) of an object without declaration: logged %r, '
                     'expected %r' % (name, kind, got, want))
        # what is declared for builtin types
    c = rng.choice([[1], {1: 2}, (1, 2), {3}, range(3)])
    p = ProxyFactory(c)
    for name, f, kind, ok in [
            ('__len__', len, 'get', True), ('__iter__', iter, 'get', True),
            ('__contains__', lambda p: 3 in p, 'get', True),
            ('append', lambda p: p.append, 'get', False),
            ('clear', lambda p: p.clear, 'get', False),
            ('x', lambda p: setattr(p, 'x', 1), 'set', False)]:
        cap.lines()
        exc = outcome(f, p)[1]
        got = cap.lines()
        if type(c) is range:
            ok = False
        want = [('Granted' if ok else 'Forbidden', name)]
        if VERBOSITY == 0 or VERBOSITY == 1 and ok:
            want = []
        if len(got) == 2 and ctx.pure and isinstance(exc, AttributeError) \
                and got[0] == got[1]:
            got = got[:1]
        ctx.count('builtin_accesses')
        if type(c) is range:
            # (nothing is declared for ranges)
            continue
        if not same(got, want, repr(c)):
            ctx.fail('log-builtin', '%s of a %s: logged %r, expected %r' % (
                name, type(c).__name__, got, want))


def run(ctx):
    global VERBOSITY
    VERBOSITY = {'watch': 1, 'purewatch': 1, 'watch2': 2,
                 'purewatch2': 2}.get(ctx.base, 0)
    ctx.transcripts = {}
    with Captured() as cap:
        for i, rng in ctx.cases('programs', 2500, 60000, same=True):
            with ctx.case():
                a = Agent(ctx, rng, ('quiet',))
                try:
                    lines = a.run(rng.randrange(5, 60))
                finally:
                    a.world.close()
                    cap.lines()
                keep(ctx, 'programs', i, lines)
        for i, rng in ctx.cases('log', 12000, 200000):
            with ctx.case():
                log(ctx, rng, cap)
        for i, rng in ctx.cases('default', 1000, 20000):
            with ctx.case():
                default_checker(ctx, rng, cap)
