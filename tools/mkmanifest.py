"""Regenerate MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from refx.registry import REG  # noqa: E402

NA = {
    'N01': 'accuracy on real papers is an empirical quantity over a corpus; no static argument bounds it',
    'N02': 'a semantic fact about the contents of the knowledge-base data, not about the program; there is no oracle in the source',
    'N03': 'backtracking cost of the regular expressions is a run-time quantity; no sound static bound is in reach for patterns with nested quantifiers and knowledge-base supplied parts',
    'N04': 'needs byte-exact reasoning about memory-map search, move and resize on arbitrary contents; out of reach of the dataflow domains used here',
    'N05': 'the header/footer heuristic has no specification other than itself; which lines are headers is a fact about documents',
    'N06': 'arithmetic on ord() values modulo constants over unbounded strings; deciding it needs concrete or symbolic execution, which is another family',
}
PENDING = 'no sound static check for it built yet in this framework (see DESIGN.md)'


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in REG:
            mod, fn, level, technique, note = REG[i]
            checks.append(dict(property=i, quick_cmd='python3 -m refx.check %s' % i,
                               thorough_cmd='python3 -m refx.check %s --thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique='static analysis: ' + technique, level=level,
                               level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, PENDING)))
    m = dict(version=1, setup_cmd='python3 -c "import ast, sys; assert sys.version_info >= (3, 10)"',
             checks=checks, not_applicable=na,
             notes='All checks read /repo/refextract/**/*.py and decide from the syntax tree; nothing of the package is '
                   'imported or executed. Python standard library only.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
