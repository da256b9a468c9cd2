from . import buildproof, esearch, modproof, fmtproof, nameproof, trproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['linkage']), (trproof, ['mod']), (nameproof, ['linkage']), (parseproof, ['module', 'exports']), (modproof, ['export', 'module']), (buildproof, ['heads']))


def search(ctx, failed, und, st):
    bad = esearch.verdicts(ctx, st, 'graph', 500, 30, failed, cats=('vis', 'syntax'))
    return bad or esearch.programs(ctx, st, ('vis', 'syntax'), ['mods', 'decl'], 900, 40, failed)
