#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough]: decides one property on /repo's tree."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from checks.ctx import Ctx, CheckError, Ob, VERIF


def known(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    for l in open(p):
        if l.startswith(f'known: property={prop} '):
            out.append(l[len(f'known: property={prop} '):].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        return decide(ctx, importlib.import_module('specs.' + prop))
    except CheckError as e:
        print(f'ERROR property={prop}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


TRUSTED = [
    'rustc (nightly) front end: the MIR that the driver in mirv/driver dumps is the code that runs',
    'mirv (mirv/engine.py, loops.py): symbolic execution of MIR, loop summaries',
    'mirv/models.py: models of the std functions that the code calls (strings, vectors, maps, iterators, formatting)',
    'z3',
    'the contracts themselves (specs/*.py), in particular the reference grammar, lowering and type tables',
]


def decide(ctx, spec):
    for k in known(ctx.prop):
        print(f'KNOWN-FINDING: property={ctx.prop} {k}')
    viol = []
    st = {}
    # 1. the proof
    obs = spec.prove(ctx) if hasattr(spec, 'prove') else []
    failed = [o for o in obs if o.status == 'failed']
    und = [o for o in obs if o.status == 'undecided']
    for o in failed:
        print(f'FAILED OBLIGATION {o.name}: {o.detail[:400]}')
    for o in und:
        print(f'UNDECIDED {o.name}: {o.detail[:300]}')
    # counterexamples that the verifier itself gave and that were replayed
    for o in failed:
        if getattr(o, 'replayed', None):
            viol.append((f'{o.name}', o.replayed))
    # 2. search: replays failures, stands in for the undecided part
    if hasattr(spec, 'search'):
        st = {}
        bad = spec.search(ctx, failed or und, und, st)     # searched harder when the proof is not complete
        for name, text in bad[:5]:
            viol.append((name, text))
    lines = []
    if viol:
        name, text = viol[0]
        extra = '\n\n'.join(f'FAILED OBLIGATION {o.name} ({o.fn})\n{o.detail}' for o in failed)
        p = ctx.replay('input', text + ('\n\n' + extra if extra else ''))
        lines.append(f'VIOLATION property={ctx.prop} replay={p}')
    elif failed:
        text = '\n\n'.join(f'FAILED OBLIGATION {o.name} (function {o.fn}, back end {o.backend})\n{o.detail}' for o in failed)
        p = ctx.replay('obligation', text)
        lines.append(f'VIOLATION property={ctx.prop} replay={p} no-failing-input-found')
    # 3. evidence
    level = getattr(spec, 'LEVEL', 'proof')
    full = [o for o in obs if not getattr(o, 'bound', None)]
    bnd = [o for o in obs if getattr(o, 'bound', None)]
    cov = {
        'obligations': sum(getattr(o, 'count', 1) or 1 for o in full),
        'discharged': sum(getattr(o, 'count', 1) or 1 for o in full if o.status == 'proved'),
        'bounded_obligations': sum(getattr(o, 'count', 1) or 1 for o in bnd),
        'bounded_discharged': sum(getattr(o, 'count', 1) or 1 for o in bnd if o.status == 'proved'),
        'bounds': sorted({o.bound for o in bnd}),
        'proof_units': [f'{o.fn}: {o.name} ({getattr(o, "count", 1)})' for o in full if o.status == 'proved'],
        'bounded_units': [f'{o.fn}: {o.name} ({getattr(o, "count", 1)})' for o in bnd if o.status == 'proved'],
        'undecided': len(und),
        'checker_cmd': f'checks/check {ctx.prop}',
        'trusted_base': TRUSTED + list(getattr(spec, 'TRUSTED', [])),
        'functions_under_contract': sorted({o.fn for o in obs if o.status == 'proved' and o.fn}),
        'backends': sorted({o.backend for o in obs if o.backend}),
        'solver_s': round(sum(o.secs for o in obs), 2),
        'undecided_obligations': [f'{o.name}: {o.detail[:200]}' for o in und],
    }
    if hasattr(spec, 'EXPLANATION'):
        cov['explanation'] = spec.EXPLANATION
    if getattr(ctx, 'inlined', None):
        cov['functions_inlined'] = sorted(ctx.inlined)
    cov.update(st)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(spec, 'ASSUME', [])) + getattr(ctx, 'assume', []) + (
              ['BOUNDED stand-in (search only) for: ' + o.name for o in und]),
          'wall_s': round(ctx.elapsed(), 2), 'violations': len(lines)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{ctx.prop}: {cov['discharged']}/{cov['obligations']} obligations discharged ({cov['bounded_discharged']}/{cov['bounded_obligations']} bounded), {len(failed)} failed, {len(und)} undecided; "
          f"search: {st.get('evaluations', 0)} cases; {ev['wall_s']} s")
    # never vacuous
    if not obs and not st.get('evaluations'):
        print('ERROR: nothing was checked')
        return 2
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
