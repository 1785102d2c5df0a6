"""P16: module, permission and policy directives (see zworld)."""
from zworld import one


def run(ctx):
    for i, rng in ctx.cases('modules', 1600, 40000):
        with ctx.case():
            one(ctx, rng, 'module')
