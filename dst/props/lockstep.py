"""C04: every mapped program finishes, in lockstep, whatever the schedule.

The workloads are those of the other checks. Each is run in order without
faults and again under a seeded schedule with network faults and stalls; what
every device computed in every mapped call must be the same.
"""
from dst import registry
from dst.core import Context, Rng, Violation, derive_seed

BASES = [('C01', 2), ('C02', 1), ('C03', 2), ('C05', 3), ('C06', 2), ('C07', 2),
         ('C08', 1), ('C09', 2), ('C11', 1.5), ('C12', 2), ('C16', 1)]
# faults that a device program must not notice
MASKED = ('stall', 'drop', 'dup', 'delay', 'clock_jump')
KINDS = {'deadlock', 'collective-mismatch', 'orphan-message', 'bad-permutation',
         'no-progress', 'program-mismatch', 'barrier-mismatch', 'pmap-size',
         'lockstep', 'replica-divergence', 'schedule'}


def gen(prop, c, rng, tier):
  base = c.weighted(BASES)
  # the part of the case that costs compilations stays the same in a group
  seed = c.getrandbits(60)
  case = registry.load(base).gen(base, Rng(seed), rng, tier)
  faults = [f for f in case['faults'] if f['kind'] in MASKED]
  w = dict(case['workload'], fixed_order=True)
  if base == 'C16':
    w.update(rerun=False, num_train_steps=min(4, w['num_train_steps']) if (
        w['num_train_steps'] > 0) else 3, eval_every=2)
    w['ckpt_every'] = min(w['ckpt_every'], 3)
  sched = case['sched']
  if 'fifo' in sched:
    sched = {'seed': rng.getrandbits(48), 'wild': 1.0}
  return {'workload': {'base': base, 'w': w, 'x64': w.get('x64', False)},
          'sched': sched, 'faults': faults}


def part(base, ctx):
  """Runs the base workload; returns what kept it from ending, if anything."""
  try:
    registry.load(base).run(base, ctx)
  except Violation as v:
    if v.kind in KINDS:
      raise
    return f'{v.kind}'
  except Exception as e:  # pylint: disable=broad-except
    return type(e).__name__
  return None


def run(prop, ctx):
  base, w = ctx.w['base'], ctx.w['w']
  calm = Context(dict(workload=w, sched={'fifo': True}, faults=[]))
  calm.record = []
  end0 = part(base, calm)
  case = dict(ctx.case, workload=w)
  wild = Context(dict(case, sched={'fifo': True}))
  wild.choices, wild.stats, wild.faults = ctx.choices, ctx.stats, ctx.faults
  wild.record = []
  end1 = part(base, wild)
  a, b = calm.record, wild.record
  for x, y in zip(a, b):
    if x[1] != y[1]:
      dev = next(i for i, (p, q) in enumerate(zip(x[1], y[1])) if p != q)
      raise Violation('schedule', f'what device {dev} computes in mapped call '
                      f'{x[0]} depends on the schedule')
    if x[2] != y[2]:
      raise Violation('schedule', 'the number of collectives in mapped call '
                      f'{x[0]} depends on the schedule: {x[2]}, {y[2]}')
  if len(a) != len(b) or end0 != end1:
    raise Violation('schedule', f'{len(a)} mapped calls in order, {len(b)} '
                    f'under another schedule ({end0}, {end1})')
  ctx.stats.probe('base_' + base)
  ctx.stats.count('mapped_calls', len(a))
  ctx.stats.count('collectives', sum(sum(x[2].values()) for x in a))
  ctx.nontrivial = any(len(x[2]) > 1 and sum(x[2].values()) for x in a)


def shrink(w):
  mod = registry.load(w['base'])
  for x in getattr(mod, 'shrink', lambda w: ())(w['w']):
    yield dict(w, w=x)
