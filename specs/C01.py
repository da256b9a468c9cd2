from . import esearch, fmtproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['expr']), (trproof, ['expr']), (parseproof, ['expr', 'types']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('expr', 'syntax'), ['expr', 'mix'], 1600, 40, failed)
