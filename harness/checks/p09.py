"""P09: interactions of threads do not affect each other."""
import sys
import threading
import time

from common import *  # noqa
import interact
from interact import *  # noqa
from zope.security import metaconfigure as MC
from zope.security import protectclass as PC


class Shared:
    """What the threads of one case share."""

    def __init__(self, rng):
        self.by_ident = {}
        self.failures = []
        self.schedule = []
        self.wrong = 0


def tracer(shared, rng):
    """Yields at random lines inside of zope.security: injected delays."""
    r = rng.random

    def local(frame, event, arg):
        if event == 'line' and r() < .25:
            time.sleep(0)
        return local

    def trace(frame, event, arg):
        if 'zope/security' in frame.f_code.co_filename:
            return local
        return None
    return trace


def thread_body(shared, runner, steps, barrier, traced, rng):
    try:
        shared.by_ident[threading.get_ident()] = runner
        barrier.wait(60)
        runner.verify()         # a new thread starts with none
        if rng.random() < .3:
            M.restoreInteraction()
            runner.verify()
        if traced:
            sys.settrace(tracer(shared, rng))
        for i in range(steps):
            runner.step()
            shared.schedule.append(runner.number)
            if rng.random() < .1:
                time.sleep(0)
    except Exception as e:
        sys.settrace(None)
        import traceback
        shared.failures.append(('thread-error', 'a thread raised %r' % (e,),
                                traceback.format_exc()))
    finally:
        sys.settrace(None)


def isolation(ctx, rng):
    shared = Shared(rng)
    proxies = []
    for i in range(3):
        raw = Target()
        tables = {'get': {n: rng.choice(PERMS) for n in 'abc'},
                  'set': {n: rng.choice(PERMS) for n in 'abc'}}
        proxies.append((Proxy(raw, Z.Checker(tables['get'], tables['set'])),
                        raw, tables))

    def policy(*participations):
        runner = shared.by_ident[threading.get_ident()]
        if runner.rng.random() < .3:
            time.sleep(0)
        grants = {p for p in PERMS if runner.rng.random() < .5}
        it = Inter(runner, participations, grants)
        it.falsy = runner.rng.random() < .3
        return it

    def hook(inter, permission, object):
        runner = shared.by_ident.get(threading.get_ident())
        if inter.owner is not runner:
            shared.failures.append((
                'foreign-interaction', 'a check in one thread asked the '
                'interaction of another', None))
        if runner is not None and runner.rng.random() < .5:
            time.sleep(0)

    def fail(key, msg, detail=None):
        shared.failures.append((key, msg, detail))

    import random
    nthreads = rng.choice([2, 3, 4, 6, 8])
    steps = rng.choice([20, 40, 80])
    traced = rng.random() < .6
    barrier = threading.Barrier(nthreads)
    runners, threads = [], []
    saved = M.setSecurityPolicy(policy)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    # the main thread has an interaction of its own meanwhile
    main = Inter(None, (), set())
    interact_policy = M.setSecurityPolicy(lambda *a: main)
    M.newInteraction()
    M.setSecurityPolicy(interact_policy)
    try:
        for n in range(nthreads):
            r = Runner(ctx, random.Random(rng.random()), proxies, hook=hook,
                       policy_global=False, fail=fail)
            r.number = n
            runners.append(r)
            threads.append(threading.Thread(
                target=thread_body, args=(shared, r, steps, barrier, traced,
                                          random.Random(rng.random())),
                daemon=True))
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                ctx.fail('stuck', 'a thread did not finish')
                return
    finally:
        sys.setswitchinterval(interval)
        M.setSecurityPolicy(saved)
        if M.queryInteraction() is not main:
            ctx.fail('main-thread', 'the interaction of the main thread '
                     'became %r' % (M.queryInteraction(),))
        M.endInteraction()
        M.endInteraction()
    for key, msg, detail in shared.failures:
        ctx.fail(key, msg, detail)
    switches = sum(1 for a, b in zip(shared.schedule, shared.schedule[1:])
                   if a != b)
    ctx.count('thread_steps', len(shared.schedule))
    ctx.count('thread_switches', switches)
    for r in runners:
        for k in ('verified', 'granted', 'refused', 'helpers', 'restore'):
            ctx.count(k, r.counts.get(k, 0))
    ctx.seen(('isolation', nthreads, steps, tuple(shared.schedule)),
             switches > 2)
    if shared.schedule:
        ctx.sample('isolation: %d threads, schedule %r' % (
            nthreads, shared.schedule[:60]))


# -- tables and registrations that change meanwhile ------------------------------

def wait_until(cond, timeout=60):
    t = time.monotonic()
    while not cond():
        if time.monotonic() - t > timeout:
            return False
        time.sleep(0)
    return True


class Klass:
    def __init__(self):
        self.stable = self.moving = self.none = 'v'


def tables_move(ctx, rng):
    """Readers' decisions are those of some state during the check."""
    import random
    raw = Klass()
    get = {'stable': 'pa', 'other': 'pb'}
    states = [CheckerPublic, 'pa', 'pb', None]
    get['moving'] = states[0]
    checker = Z.Checker(get, {})
    if rng.random() < .4:
        # the second part decides
        checker = Z.CombinedChecker(Z.Checker({}, {}), checker)
    p = Proxy(raw, checker)
    version = [0]           # odd while changing
    value = {0: CheckerPublic}
    done = []
    failures = []
    observed = {}

    class Fixed:
        participations = ()

        def __init__(self, grants, ident):
            self.grants, self.ident = grants, ident

        def checkPermission(self, permission, object):
            if threading.get_ident() != self.ident:
                failures.append(('foreign-interaction', 'the interaction of '
                                 'another thread was asked'))
            time.sleep(0)
            return permission in self.grants

    def expect(state, grants):
        if state is None:
            return 'forbidden'
        if state is CheckerPublic:
            return 'ok'
        return 'ok' if state in grants else 'unauthorized'

    def reader(seed):
        r = random.Random(seed)
        try:
            grants = {q for q in ('pa', 'pb') if r.random() < .5}
            saved_local = Fixed(grants, threading.get_ident())
            barrier.wait(60)
            with lock:
                saved = M.setSecurityPolicy(lambda *a: saved_local)
                M.newInteraction()
                M.setSecurityPolicy(saved)
            for i in range(60):
                name = r.choice(['moving', 'moving', 'moving', 'stable',
                                 'none'])
                v0 = version[0]
                how, e = outcome(getattr, p, name)
                v1 = version[0]
                got = 'ok' if how == 'ok' else {
                    Unauthorized: 'unauthorized',
                    ForbiddenAttribute: 'forbidden'}.get(type(e), repr(e))
                if how != 'ok' and ctx.pure and type(e) is AttributeError:
                    # the check was repeated (by __getattr__) and passed
                    got = 'forbidden'
                if name == 'stable':
                    legal = {expect('pa', grants)}
                elif name == 'none':
                    legal = {'forbidden'}
                else:
                    legal = {expect(value[v], grants)
                             for v in range(v0 - 1, v1 + 2) if v in value}
                observed[name, v0 == v1, got] = observed.get(
                    (name, v0 == v1, got), 0) + 1
                if got not in legal:
                    failures.append((
                        'unjustified-decision', '%s: %s, but the states '
                        'during the check justify only %s' % (
                            name, got, sorted(legal))))
            M.endInteraction()
        except Exception as e:
            failures.append(('thread-error', 'a reader raised %r' % (e,)))
        finally:
            done.append(1)

    def writer():
        barrier.wait(60)
        r = random.Random(seed0)
        v = 0
        while len(done) < nreaders:
            s = r.choice(states)
            v += 1
            value[v] = s
            version[0] = v
            if s is None and r.random() < .5:
                get.pop('moving', None)
            else:
                get['moving'] = s
            # the table grows and shrinks at the same time
            for k in range(r.randrange(20)):
                get['filler%d' % r.randrange(200)] = 'pb'
            if r.random() < .2:
                for k in [k for k in get if k.startswith('filler')]:
                    del get[k]
            v += 1
            value[v] = s
            version[0] = v
            time.sleep(r.choice([0, 0, 0, 1e-5, 1e-4]))

    lock = threading.Lock()
    nreaders = rng.choice([2, 4, 7])
    seed0 = rng.random()
    barrier = threading.Barrier(nreaders + 1)
    threads = [threading.Thread(target=reader, args=(rng.random(),),
                                daemon=True) for i in range(nreaders)]
    threads.append(threading.Thread(target=writer, daemon=True))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                ctx.fail('stuck', 'a thread did not finish')
                return
    finally:
        sys.setswitchinterval(interval)
    for key, msg in failures:
        ctx.fail(key, msg)
    for (name, same, got), n in observed.items():
        ctx.count('concurrent_decisions', n)
        ctx.seen(('tables', nreaders, name, same, got))
    ctx.count('table_versions', version[0])


def registrations_move(ctx, rng):
    """Selecting checkers while registrations come and go."""
    import random

    class A:
        pass

    class B(A):
        pass

    class Steady:
        pass
    ca, cb, cs = (Z.Checker({n: CheckerPublic}, {}) for n in 'abs')
    Z.defineChecker(Steady, cs)
    failures, observed, done = [], {}, []

    def reader(seed):
        r = random.Random(seed)
        try:
            barrier.wait(60)
            for i in range(80):
                cls = r.choice([A, B, Steady])
                v = cls()
                q = r.choice([Z.ProxyFactory, Z.Checker({}).proxy])(v)
                c = getChecker(q)
                if c is ca:
                    got = 'a'
                elif c is cb:
                    got = 'b'
                elif c is cs:
                    got = 's'
                elif not c.get_permissions:
                    got = 'default'
                else:
                    got = repr(c)
                observed[cls.__name__, got] = observed.get(
                    (cls.__name__, got), 0) + 1
                legal = {A: 'a', B: 'b', Steady: 's'}[cls]
                if got != legal and (cls is Steady or got != 'default'):
                    failures.append(('wrong-checker', 'an instance of %s got '
                                     'the checker of %s' % (
                                         cls.__name__, got)))
        except Exception as e:
            failures.append(('thread-error', 'a reader raised %r' % (e,)))
        finally:
            done.append(1)

    def writer(cls, c):
        barrier.wait(60)
        try:
            while len(done) < nreaders:
                Z.defineChecker(cls, c)
                time.sleep(0)
                if Z.getCheckerForInstancesOf(cls) is not c:
                    failures.append(('lost-definition', 'a definition of '
                                     'another class undid this one'))
                Z.undefineChecker(cls)
                time.sleep(0)
        except Exception as e:
            failures.append(('thread-error', 'a writer raised %r' % (e,)))

    nreaders = rng.choice([2, 4])
    barrier = threading.Barrier(nreaders + 2)
    threads = [threading.Thread(target=reader, args=(rng.random(),),
                                daemon=True) for i in range(nreaders)]
    threads += [threading.Thread(target=writer, args=a, daemon=True)
                for a in ((A, ca), (B, cb))]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                ctx.fail('stuck', 'a thread did not finish')
                return
    finally:
        sys.setswitchinterval(interval)
        Z.undefineChecker(Steady)
    for key, msg in failures:
        ctx.fail(key, msg)
    for (name, got), n in observed.items():
        ctx.count('concurrent_selections', n)
        ctx.seen(('registrations', nreaders, name, got))


def declarations_move(ctx, rng):
    """A permission declared anew never leaves the name without any."""
    import random
    import types

    class Source:
        pass

    module = types.ModuleType('vz_moving')
    classes = [type('D%d' % i, (Klass,), {}) for i in range(2)]
    kinds = {'always': [CheckerPublic], 'pa': ['pa'],
             'moves': [CheckerPublic, 'pa', 'pb'], 'ids': ['pa', 'pb']}

    def declared(p):
        return 'zope.Public' if p is CheckerPublic else p

    for n, perms in kinds.items():
        PC.protectName(Source, n, declared(perms[0]))
        PC.protectSetAttribute(Source, n, declared(perms[0]))
    for c in classes:
        PC.protectLikeUnto(c, Source)
    for n, perms in kinds.items():
        MC.protectModule(module, n, declared(perms[0]))
        setattr(module, n, 1)
        for c in classes:
            setattr(c, n, 1)
    proxies = [Z.ProxyFactory(c()) for c in classes]
    pmodule = Z.ProxyFactory(module)
    failures, observed, done = [], {}, []

    class Fixed:
        participations = ()

        def __init__(self, grants):
            self.grants = grants

        def checkPermission(self, permission, object):
            return permission in self.grants

    def reader(seed):
        r = random.Random(seed)
        try:
            grants = r.choice([{'pa', 'pb'}, {'pa', 'pb'}, {'pa'}, set()])
            M.thread_local.interaction = Fixed(grants)
            barrier.wait(60)
            if traced:
                sys.settrace(tracer(None, random.Random(seed)))
            for i in range(50):
                name = r.choice(list(kinds))
                way = r.choice(['get', 'get', 'set', 'can', 'module',
                                'fresh'])
                if way == 'get':
                    how, e = outcome(getattr, r.choice(proxies), name)
                elif way == 'set':
                    how, e = outcome(setattr, r.choice(proxies), name, 1)
                elif way == 'can':
                    how, e = outcome(Z.canAccess, r.choice(proxies), name)
                    if (how, e) == ('ok', False):
                        how, e = 'raise', Unauthorized()
                elif way == 'module':
                    how, e = outcome(getattr, pmodule, name)
                else:
                    how, e = outcome(lambda: getattr(
                        Z.ProxyFactory(r.choice(classes)()), name))
                got = 'ok' if how == 'ok' else {
                    Unauthorized: 'unauthorized',
                    ForbiddenAttribute: 'forbidden'}.get(type(e), repr(e))
                legal = {'ok' if p is CheckerPublic or p in grants
                         else 'unauthorized' for p in kinds[name]}
                if ctx.pure and 'unauthorized' in legal and \
                        type(e) is AttributeError:
                    # the check was repeated (by __getattr__) and passed
                    got = 'unauthorized'
                observed[way, name, got] = observed.get(
                    (way, name, got), 0) + 1
                if got not in legal:
                    failures.append((
                        'declared-anew', '%s of %r: %s, while all that was '
                        'ever declared is %r' % (
                            way, name, got, kinds[name])))
        except Exception as e:
            failures.append(('thread-error', 'a reader raised %r' % (e,)))
        finally:
            sys.settrace(None)
            done.append(1)

    def writer(seed):
        r = random.Random(seed)
        try:
            barrier.wait(60)
            if traced:
                sys.settrace(tracer(None, random.Random(seed)))
            while len(done) < nreaders:
                name = r.choice(list(kinds))
                p = declared(r.choice(kinds[name]))
                way = r.randrange(4)
                if way == 0:
                    PC.protectName(r.choice(classes), name, p)
                elif way == 1:
                    PC.protectSetAttribute(r.choice(classes), name, p)
                elif way == 2:
                    MC.protectModule(module, name, p)
                else:
                    PC.protectLikeUnto(r.choice(classes), Source)
                redeclared.append(1)
                time.sleep(0)
        except Exception as e:
            failures.append(('thread-error', 'a writer raised %r' % (e,)))
        finally:
            sys.settrace(None)

    redeclared = []
    nreaders = rng.choice([1, 2, 4])
    nwriters = rng.choice([1, 2])
    traced = rng.random() < .8
    barrier = threading.Barrier(nreaders + nwriters)
    threads = [threading.Thread(target=t, args=(rng.random(),), daemon=True)
               for t in [reader] * nreaders + [writer] * nwriters]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
            if t.is_alive():
                ctx.fail('stuck', 'a thread did not finish')
                return
    finally:
        sys.setswitchinterval(interval)
        for c in classes + [Source, module]:
            Z.undefineChecker(c)
    for key, msg in failures:
        ctx.fail(key, msg)
    for (way, name, got), n in observed.items():
        ctx.count('decisions_while_declared', n)
        ctx.seen(('declarations', nreaders, nwriters, way, name, got))
    ctx.count('redeclared', len(redeclared))


def run(ctx):
    for i, rng in ctx.cases('isolation', 400, 12000, budget=14):
        with ctx.case():
            isolation(ctx, rng)
    for i, rng in ctx.cases('tables', 120, 4000, budget=6):
        with ctx.case():
            tables_move(ctx, rng)
    for i, rng in ctx.cases('registrations', 120, 4000, budget=6):
        with ctx.case():
            registrations_move(ctx, rng)
    for i, rng in ctx.cases('declarations', 120, 4000, budget=6):
        with ctx.case():
            declarations_move(ctx, rng)
