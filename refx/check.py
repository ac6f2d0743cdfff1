"""Run one property check:  python3 -m refx.check C01"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'refx.check'] + sys.argv[1:])
    sys.dont_write_bytecode = True
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from .common import Ctx
    from .registry import REG
    t0 = time.time()
    mod, fname, level = REG[pid][:3]
    ctx = None
    err = None
    try:
        ctx = Ctx(pid, tier, seed)
        for rel, e in ctx.prog.errors:
            ctx.incomplete.append('%s does not parse: %s' % (rel, e))
        fn = getattr(importlib.import_module('refx.props.' + mod), fname)
        fn(ctx)
    except Exception:  # the analyser could not handle this tree: say so, alarm on nothing
        err = traceback.format_exc()
        sys.stderr.write(err)
    known = load_known(pid)
    viol, kn = [], []
    for f in (ctx.findings.values() if ctx else ()):
        (kn if f.ident() in known else viol).append(f)
    for f in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[f.ident()]))
    ev = os.environ.get('REFX_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.findings.json')
    cov = dict(explanation='Static analysis of the current source tree by abstract interpretation / '
                           'syntax-tree rules; nothing of the package is executed.')
    if ctx:
        cov.update(rules=ctx.rules, roots=sorted(set(ctx.roots)), functions_analysed=len(ctx.functions),
                   function_names=sorted(ctx.functions), known_findings=[f.as_dict() for f in kn],
                   imprecise_sites=ctx.notes, incomplete=ctx.incomplete)
        cov.update(ctx.counts)
        cov['files_read'] = len(ctx.prog.files)
    if err:
        cov['analysis_error'] = err
    doc = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               wall_s=round(time.time() - t0, 2), violations=len(viol),
               assumptions=ASSUME)
    with open(os.path.join(ev, pid + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1, sort_keys=True, default=str)
    if viol:
        with open(replay, 'w') as fh:
            json.dump([f.as_dict() for f in viol], fh, indent=1, default=str)
        for f in viol:
            print('%s: %s: [%s] %s' % (f.where, pid, f.rule, f.msg))
            if f.path:
                print('    call path: %s' % f.path)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    for x in (ctx.incomplete if ctx else []):
        print('INCOMPLETE: %s' % x)
    print('%s: holds on everything analysed (%s functions, %s roots, %.1f s)' % (
        pid, len(ctx.functions) if ctx else 0, len(set(ctx.roots)) if ctx else 0, time.time() - t0))
    return 0


ASSUME = [
    'CPython semantics as modelled in refx/interp.py, refx/expr.py, refx/models.py',
    'library calls behave as their documented contracts (models in refx/models.py)',
    'no monkey-patching, no exceptions from signals, memory exhaustion or interpreter shutdown',
    'a value the analysis cannot bound never raises an alarm',
]


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == pid:
                out[e['ident']] = e['what']
    return out


if __name__ == '__main__':
    sys.exit(main())
