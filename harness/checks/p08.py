"""P08: interactions begin, end and are restored as specified."""
from common import *  # noqa
from interact import *  # noqa
from zope.security.simplepolicies import ParanoidSecurityPolicy


def one(ctx, rng):
    proxies = []
    for i in range(2):
        raw = Target()
        tables = {'get': {n: rng.choice(PERMS) for n in 'abc'},
                  'set': {n: rng.choice(PERMS) for n in 'abc'}}
        proxies.append((Proxy(raw, Z.Checker(tables['get'], tables['set'])),
                        raw, tables))
    runner = Runner(ctx, rng, proxies)
    # the previous case left the thread without a current or a previous one
    saved = M.setSecurityPolicy(make_policy(runner, None))
    try:
        runner.policy = M.getSecurityPolicy()
        runner.verify()
        for i in range(rng.randrange(3, 60)):
            runner.step()
    finally:
        M.setSecurityPolicy(saved)
        M.endInteraction()
        M.endInteraction()
        M.restoreInteraction()
    if M.queryInteraction() is not None:
        ctx.fail('end-twice', 'an interaction is back after two ends')
        M.endInteraction()
    for k, v in runner.counts.items():
        ctx.count(k, v)
    for s in runner.sigs:
        ctx.seen(s)
    ctx.sample(runner.log)


def default_policy(ctx):
    if ctx.shard == 0 and M.getSecurityPolicy() is not ParanoidSecurityPolicy:
        ctx.fail('default-policy', 'the default policy is %r'
                 % M.getSecurityPolicy())


def run(ctx):
    default_policy(ctx)
    for i, rng in ctx.cases('histories', 8000, 200000):
        with ctx.case():
            one(ctx, rng)
