"""Writes MANIFEST.json from the obligations and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import obligations as ob    # noqa: E402

NA = {
    'N01': 'A limit over sampling distributions: no static argument on this '
           'source bounds a rejection rate; the structural parts (which '
           'tests, alpha, degrees of freedom) are S01-S07, M04 and M05.',
    'N02': 'A statistical property of md5 over unknown id sets; that the '
           'assignment is exactly the parity of the salted md5 is D05.',
    'N03': 'Rounding error depends on run-time magnitudes; the analysis '
           'compares expressions over the reals and cannot bound it.',
    'N04': 'Time and memory are run-time quantities; no sound static bound '
           'on pandas operations is in reach.',
}

TECH = ('static analysis: abstract interpretation of the syntax tree over a '
        'value-numbering domain, equivalence of function summaries with a '
        'reference summary per obligation (nothing executed, no solver, no '
        'path enumeration)')
TECHS = {
    'mutations': 'static analysis: interprocedural alias / in-place effect '
                 'analysis over the same abstract interpretation',
    'randomness': 'static analysis: interprocedural source tracking of random '
                  'generators (dataflow) and a resolved-reference lint',
    'documentation': 'static analysis: name, attribute and call binding of '
                     'the documented programs against the API declared in '
                     'the source',
}


def main():
  checks = []
  for p in ob.OBLIGATIONS:
    k = ob.EXTRA.get(p)
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py {p} --tier quick',
        'thorough_cmd': f'python3 check.py {p} --tier thorough',
        'technique': TECHS.get(k, TECH),
        'level': 'other',
        'level_note': 'Equality of summaries holds for all inputs under the '
                      'assumptions in the evidence file; differences the '
                      'algebra cannot decide are listed as undecided and do '
                      'not fail the check.',
    })
  m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest',
       'checks': checks,
       'not_applicable': [{'property': p, 'reason': r}
                          for p, r in NA.items()],
       'notes': 'The checks read /repo only; they need no build and no '
                'package outside the standard library.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
