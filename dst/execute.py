"""Runs one case and classifies what happened."""
import json
import os
import re
import sys
import traceback

import jax

from dst.core import (Context, HarnessError, Rng, SimCrash, SimDispatchError,
                      StubMissing, Violation, derive_seed)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo/swirl_fem'
# lines where a seam hands a call on to what it stands for
PASSED_ON = re.compile(r'\b_?real(\(|\[)')


def make_case(mod, prop, seed, group, index, tier):
  cfg_rng = Rng(derive_seed(seed, prop, 'cfg', group))
  rng = Rng(derive_seed(seed, prop, 'run', group, index))
  case = mod.gen(prop, cfg_rng, rng, tier)
  case = json.loads(json.dumps(case))
  case['prop'] = prop
  return case


def _classify(exc):
  """Is an unexpected exception the code's fault or the harness's?"""
  frames = traceback.extract_tb(exc.__traceback__)
  last = None
  repo = False
  for f in frames:
    fn = os.path.abspath(f.filename)
    if fn.startswith(REPO):
      repo, last = True, 'repo'
    elif fn.startswith(HERE) and not PASSED_ON.search(f.line or ''):
      last = 'dst'
  if repo and last == 'repo':
    where = [f for f in frames
             if os.path.abspath(f.filename).startswith(REPO)][-1]
    return Violation('exception', f'{type(exc).__name__}: {str(exc)[:400]} '
                     f'(raised from {os.path.basename(where.filename)}:'
                     f'{where.name})')
  return None


class Outcome:

  def __init__(self):
    self.violation = None
    self.error = None
    self.ctx = None


def execute(mod, prop, case):
  out = Outcome()
  ctx = out.ctx = Context(case)
  ctx.nontrivial = True
  ctx.prop = prop
  wide = bool(case['workload'].get('x64'))
  try:
    jax.config.update('jax_enable_x64', wide)
    if wide:
      ctx.stats.probe('double_precision')
    mod.run(prop, ctx)
  except Violation as v:
    out.violation = v
  except (HarnessError, StubMissing) as e:
    out.error = ''.join(traceback.format_exception(e))[-3000:]
  except SimCrash as e:
    out.error = 'SimCrash escaped: ' + ''.join(traceback.format_exception(e))[-2000:]
  except SimDispatchError as e:
    out.error = ''.join(traceback.format_exception(e))[-2000:]
  except KeyboardInterrupt:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    v = _classify(e)
    if v is not None:
      out.violation = v
    else:
      out.error = ''.join(traceback.format_exception(e))[-4000:]
  if out.violation is not None:
    ctx.stats.event('violation', out.violation.kind)
  return out
