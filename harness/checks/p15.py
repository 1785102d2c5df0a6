"""P15: class directives protect exactly what they declare (see zworld)."""
from zworld import one


def run(ctx):
    for i, rng in ctx.cases('classes', 1600, 40000):
        with ctx.case():
            one(ctx, rng, 'class')
