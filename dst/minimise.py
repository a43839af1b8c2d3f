"""Shrinks a failing case while the same kind of violation persists."""
import copy
import json
import time

from dst import execute as ex


def minimise(mod, prop, case, kind, deadline, report):
  tried = 0
  best = case

  def fails(c):
    nonlocal tried
    if time.monotonic() > deadline:
      return False
    tried += 1
    o = ex.execute(mod, prop, c)
    if o.violation is not None and o.violation.kind == kind:
      return True
    return False

  def accept(c):
    nonlocal best
    best = json.loads(json.dumps(c))
    report(best)

  # 1. calm schedule
  c = {**best, 'sched': {'fifo': True}}
  if 'fifo' not in best['sched'] and fails(c):
    accept(c)
  # 2. faults: all, then one by one
  if best['faults']:
    c = {**best, 'faults': []}
    if fails(c):
      accept(c)
    else:
      i = 0
      while i < len(best['faults']):
        c = {**best, 'faults': best['faults'][:i] + best['faults'][i + 1:]}
        if fails(c):
          accept(c)
        else:
          i += 1
  # 3. workload
  progress = True
  while progress and time.monotonic() < deadline:
    progress = False
    for w in getattr(mod, 'shrink', lambda w: ())(copy.deepcopy(best['workload'])):
      if time.monotonic() > deadline:
        break
      c = {**best, 'workload': w}
      if fails(c):
        accept(c)
        progress = True
        break
  # 4. schedule as an explicit, shortened list
  if 'seed' in best['sched']:
    o = ex.execute(mod, prop, best)
    if o.violation is not None and o.violation.kind == kind:
      log = list(o.ctx.choices.log)
      c = {**best, 'sched': {'choices': log}}
      if fails(c):
        accept(c)
        n = len(log)
        step = max(1, n // 2)
        while step >= 1 and time.monotonic() < deadline:
          i = 0
          while i < len(log) and time.monotonic() < deadline:
            trial = log[:i] + [0] * min(step, len(log) - i) + log[i + step:]
            if trial != log:
              c = {**best, 'sched': {'choices': trial}}
              if fails(c):
                log = trial
                accept(c)
            i += step
          step //= 2
        while log and log[-1] == 0:
          log.pop()
        c = {**best, 'sched': {'choices': log}}
        if fails(c):
          accept(c)
  # 5. faults again, now that the rest is small
  i = 0
  while i < len(best['faults']) and time.monotonic() < deadline:
    c = {**best, 'faults': best['faults'][:i] + best['faults'][i + 1:]}
    if fails(c):
      accept(c)
    else:
      i += 1
  return best, tried
