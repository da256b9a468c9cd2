from . import esearch, flowproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (flowproof, ['flow']))


def search(ctx, failed, und, st):
    return esearch.verdicts(ctx, st, 'flow', 2500, 40, failed)
