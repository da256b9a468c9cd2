from . import buildproof, esearch, modproof, nameproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (nameproof, ['names']), (trproof, ['stmt', 'mod']), (parseproof, ['exports', 'types']), (modproof, ['module']), (buildproof, ['heads']))


def search(ctx, failed, und, st):
    return esearch.verdicts(ctx, st, 'scope', 2500, 40, failed)
