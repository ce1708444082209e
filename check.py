#!/usr/bin/env python3
"""Decides one property of /repo from its source.

  check.py <property> [--tier quick|thorough] [--repo DIR]

exit 0: no violation (undecided obligations are listed in the evidence),
exit 1: VIOLATION lines were printed, other: the analysis could not be done.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import obligations as ob        # noqa: E402
from sa import program as pr            # noqa: E402
from sa import terms as tm              # noqa: E402
from sa import fingerprint as fg          # noqa: E402
from sa import units                    # noqa: E402
from sa import extra                    # noqa: E402
from sa import state                    # noqa: E402
from sa import docs_use                 # noqa: E402

RULE = (
    'Each function is evaluated abstractly over its syntax tree (values are '
    'terms of a canonical algebra, branches are joined with their guards, '
    'loops are folded into closed forms, private helpers are inlined; nothing '
    'is executed and no path is enumerated) into a summary of its signature, '
    'exception conditions, result, effects and parameter states; each aspect '
    'must have the same value number as in the reference summary. A '
    'difference is a violation only if the algebra proves it to be one.')

RULES_EXTRA = {
    'mutations': 'No in-place operation on a value that may be (part of) a '
                 'parameter of a public function is reachable from it, except '
                 'the documented ones (contracts.json "mutates").',
    'randomness': 'The generator of every reachable draw, and every generator '
                  'handed to another public function, originates in a '
                  'parameter (or self.rng); the only fresh generator is the '
                  'unseeded one that draws the bytes of a salt; no resolved '
                  'reference to global random state.',
    'documentation': 'Every feedx name, call, attribute and stored design in '
                     'the README and notebook programs binds against the '
                     'public API declared in the source, and every name read '
                     'is defined earlier in the program.'}


def known(prop):
  out = {}
  with open(os.path.join(HERE, 'known_findings.txt')) as f:
    for line in f:
      line = line.strip()
      if line.startswith('KNOWN property='):
        head, _, what = line.partition(': ')
        parts = head.split(' ', 2)
        if parts[1] == f'property={prop}':
          out[parts[2][len('key='):]] = what
  return out


def main():
  p = argparse.ArgumentParser()
  p.add_argument('property', nargs='?')
  p.add_argument('--selftest', action='store_true',
                 help='the analysis and its reference load and agree with '
                 'themselves')
  p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  p.add_argument('--repo', default='/repo')
  p.add_argument('--spec', default=os.path.join(HERE, 'spec'))
  a = p.parse_args()
  t0 = time.time()
  if a.selftest:
    spec, spec2 = pr.make_programs(a.repo, a.spec)
    missing = sorted({fn for l in ob.OBLIGATIONS.values() for fn, _ in l
                      if fn not in spec2.api_funcs})
    print(f'reference: {len(spec2.api_funcs)} public functions, '
          f'{len(ob.OBLIGATIONS)} properties')
    return 1 if missing else 0
  prop = a.property
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  if prop not in ob.OBLIGATIONS:
    print(f'unknown property {prop}', file=sys.stderr)
    return 3
  results, counts, samples = [], {}, []
  rule = RULE
  functions = set()
  if ob.EXTRA.get(prop) == 'documentation':
    rule = RULES_EXTRA['documentation']
    bad, counts, und = docs_use.check(a.repo)
    for where, line, msg in bad:
      results.append(units.Result('documentation', 'use', 'violation', msg,
                                  (where, line)))
    for u in und:
      results.append(units.Result('documentation', 'use', 'undecided', u))
    n_ob = counts['calls'] + counts['attributes'] + counts['names']
    if counts['calls'] < 20:
      print('the documented programs were not found', file=sys.stderr)
      return 2
  else:
    impl, spec = pr.make_programs(a.repo, a.spec)
    hidden = state.Hidden(impl, spec)
    if prop in ob.STRICT:
      tm.STRICT_NAN[0] = True
    kind = ob.EXTRA.get(prop)
    if kind:
      rule = RULES_EXTRA[kind]
      results = getattr(extra, kind)(impl, spec, counts)
      functions |= set(spec.api_funcs)
    deadline = t0 + (420 if tier == 'quick' else 780)
    ck = units.Checker(impl, spec, deadline, hidden)
    for fn, aspects in ob.OBLIGATIONS[prop]:
      rs = ck.check(fn, aspects, thorough=tier == 'thorough')
      results += rs
      functions.add(fn)
    # what is left undecided is searched longer
    for effort, seed in ((4, 2), (8, 3)):
      und = {r.fn for r in results if r.status == 'undecided'}
      if not und or time.time() > deadline - 150 or any(
          r.status in ('violation', 'missing') for r in results):
        break
      fg.EFFORT[:] = effort, seed
      for fn, aspects in ob.OBLIGATIONS[prop]:
        if fn not in und or time.time() > deadline - 150:
          continue
        c2 = units.Checker(impl, spec, deadline, hidden)
        rs = c2.check(fn, aspects, thorough=tier == 'thorough')
        functions |= c2.functions

        def left(xs):
          return sum(r.status == 'undecided' for r in xs)
        if any(r.aspect == 'analysis' for r in rs):
          continue
        if any(r.status == 'violation' for r in rs) or \
            left(rs) < left(r for r in results if r.fn == fn):
          results = [r for r in results if r.fn != fn] + rs
    functions |= ck.functions
    counts['call_sites'] = ck.callsites + counts.get('call_sites', 0)
    counts['hidden_state_cells'] = len(hidden.cells)
  equal = [r for r in results if r.status == 'equal']
  viol = [r for r in results if r.status == 'violation']
  und = [r for r in results if r.status == 'undecided']
  miss = [r for r in results if r.status == 'missing']
  kn = known(prop)
  new, old = [], []
  for r in viol:
    (old if r.key() in kn else new).append(r)
  if ob.EXTRA.get(prop) != 'documentation':
    n_ob = len(results)
  cov = {
      'explanation': 'Static analysis of the current source of ' + a.repo +
                     '. ' + rule,
      'obligations': n_ob,
      'discharged': n_ob - len(viol) - len(und) - len(miss),
      'violations': len(viol), 'undecided': len(und),
      'functions': sorted(str(f) for f in functions),
      **counts,
      'samples': [f'{r.fn} [{r.aspect}]: {r.status}' + (
          f' at {r.where[0]}:{r.where[1]}' if r.where else '')
                  for r in results[:12]],
      'undecided_obligations': [
          f'{r.fn} [{r.aspect}]: {r.detail[:300]}' for r in und],
  }
  if ob.EXTRA.get(prop) == 'documentation':
    cov['samples'] = [f'{k}: {v}' for k, v in counts.items()]
  ev = {
      'property': prop, 'tier': tier,
      'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
      'coverage': cov,
      'assumptions': ob.ASSUMPTIONS,
      'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
  edir = os.path.join(HERE, 'evidence')
  os.makedirs(edir, exist_ok=True)
  with open(os.path.join(edir, prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  for r in old:
    print(f'KNOWN-FINDING: property={prop} {kn[r.key()]}')
  for r in und:
    print(f'undecided: {r.fn} [{r.aspect}] {r.detail[:300]}')
  replay = os.path.join(edir, f'{prop}.violation.json')
  if os.path.exists(replay):
    os.remove(replay)
  if new:
    with open(replay, 'w') as f:
      json.dump([{
          'function': r.fn, 'aspect': r.aspect, 'detail': r.detail,
          'file': r.where[0] if r.where else None,
          'line': r.where[1] if r.where else None} for r in new], f, indent=1)
    for r in new:
      w = f'{r.where[0]}:{r.where[1]}: ' if r.where else ''
      print(f'{w}{r.fn} [{r.aspect}] {r.detail}')
    print(f'VIOLATION property={prop} replay={replay}')
    return 1
  if miss:
    for r in miss:
      print(f'{r.fn}: {r.detail}', file=sys.stderr)
    return 2
  print(f'{prop}: {cov["discharged"]} of {cov["obligations"]} obligations '
        f'hold, {len(und)} undecided ({ev["wall_s"]} s)')
  return 0


if __name__ == '__main__':
  sys.exit(main())
