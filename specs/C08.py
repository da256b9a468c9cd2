from . import buildproof, esearch, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (buildproof, ['heads', 'tree']))


def search(ctx, failed, und, st):
    bad = esearch.verdicts(ctx, st, 'graph', 800, 40, failed, cats=('module', 'vis'))
    return bad or esearch.programs(ctx, st, ('module',), ['mods'], 300, 20, failed)
