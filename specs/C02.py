from . import esearch, fmtproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['stmt']), (trproof, ['stmt']), (parseproof, ['stmt', 'types']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('stmt', 'syntax'), ['stmt', 'mix'], 900, 40, failed)
