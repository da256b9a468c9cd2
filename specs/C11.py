from . import esearch, modproof, trproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (trproof, ['panic']), (modproof, ['calloc']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('panic', 'syntax'), ['panic'], 900, 40, failed)
