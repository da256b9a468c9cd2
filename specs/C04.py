from . import buildproof, esearch, modproof, fmtproof, nameproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['decl']), (trproof, ['mod']), (nameproof, ['form']), (parseproof, ['decl']), (modproof, ['order']), (buildproof, ['heads']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('decl', 'syntax'), ['decl', 'local'], 900, 40, failed)
