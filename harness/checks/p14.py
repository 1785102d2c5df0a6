"""P14: the C and the Python implementation decide alike.

The same random programs run with both; everything that can be observed is
written down, and the transcripts must be the same.
"""
from agents import *  # noqa
import agents


def run(ctx):
    ctx.transcripts = {}
    for i, rng in ctx.cases('programs', 9600, 240000, same=True):
        with ctx.case():
            a = Agent(ctx, rng)
            try:
                lines = a.run(rng.randrange(5, 60))
            finally:
                a.world.close()
            keep(ctx, 'programs', i, lines)


def keep(ctx, phase, i, lines):
    ctx.count('programs')
    ctx.count('lines', len(lines))
    ctx.seen((phase, lines))
    ctx.transcripts['%s/%d' % (phase, i)] = lines
    if i < 20:
        ctx.sample(' | '.join(lines[:12]))
