from . import esearch, fmtproof, lexproof, parseproof, prover

LEVEL = 'proof'


def prove(ctx):
    return prover.prove(ctx, (fmtproof, ['literal']), (lexproof, ['lex']), (parseproof, ['literal']))


def search(ctx, failed, und, st):
    return esearch.programs(ctx, st, ('lex', 'expr', 'stmt', 'switch', 'decl', 'vis', 'panic', 'module', 'syntax'), ['lex'], 900, 40, failed, depth=2)
