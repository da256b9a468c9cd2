from . import esearch, fmtproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['switch']), (trproof, ['switch']), (parseproof, ['switch']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('switch', 'syntax'), ['switch'], 900, 40, failed)
