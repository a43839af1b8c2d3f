"""Writes MANIFEST.json from the registry, properties.jsonl and NOT_APPLICABLE."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import registry  # noqa: E402
from dst import describe  # noqa: E402

PURE = ('a pure function of its arguments: it has no scheduling, time, I/O, '
        'randomness or multi-party behaviour that a simulator could vary or '
        'fault, so deterministic simulation decides nothing about it')
NA = {
    'N01': 'Interpolation and quadrature are ' + PURE + '.',
    'N02': 'Mesh refinement is ' + PURE + '; C22 decides its part in '
           'distributed solves.',
    'N03': 'Serial finite element operators are ' + PURE + '; what '
           'distribution adds to them is decided by C09-C12.',
    'N04': 'A flow solver step is ' + PURE + '; the histories built from its '
           'steps are decided by C19, C21 and C25.',
    'N05': 'One integration draws from an explicit key argument, so it is '
           + PURE + '; ensembles over devices and interruptions are decided by '
           'C24.',
    'N06': 'The closure model draws from explicit keys, so it is ' + PURE + '.',
    'N07': 'The partitioner calls an external single-threaded graph '
           'partitioner once; it is ' + PURE + '; agreement between '
           'processes is decided by C22.',
}


def main():
  props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
  checks, na = [], []
  for p in props:
    i = p['id']
    if i in registry.CHECKS:
      m = describe.META[i]
      checks.append(dict(
          property=i, quick_cmd=f'./check.sh {i} quick',
          thorough_cmd=f'./check.sh {i} thorough',
          technique=m.get('technique', 'deterministic simulation with fault '
                          'injection: seeded search over schedules and faults'),
          level='exploration', level_note=m['note']))
    else:
      na.append(dict(property=i, reason=NA.get(i, 'The check is not built yet.')))
  doc = dict(
      version=1,
      setup_cmd='./setup.sh',
      hooks=dict(
          guard='none',
          enable='No source hooks: the simulator replaces jax.jit, jax.pmap, '
                 'file, clock, entropy and process seams from outside, in its '
                 'own worker processes, before the code under test is '
                 'imported from /repo. The shipped code is unchanged.',
          source_commits=[]),
      checks=checks, not_applicable=na,
      notes='python -m dst.run replay FILE re-runs a replay file; python -m '
            'dst.run determinism ID N checks that runs repeat exactly.')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')


main()
