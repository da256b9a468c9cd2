from . import esearch, typeproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (typeproof, ['types']))


def search(ctx, failed, und, st):
    bad = esearch.typetable(ctx, st, 9000, 25, failed)
    return bad or esearch.verdicts(ctx, st, 'types', 1500, 25, failed)
