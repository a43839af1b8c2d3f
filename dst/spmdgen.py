"""Schedules and faults for simulated device programs."""


def schedule(rng):
  if rng.chance(0.08):
    return {'fifo': True}
  return {'seed': rng.getrandbits(48), 'wild': rng.choice([0.2, 0.6, 1.0, 1.0])}


def network_faults(rng, ndev, dispatches=6, msgs=60, colls=12, rate=1.0):
  """Faults that a reliable transport must mask."""
  out = []
  kinds = [k for k in ('stall', 'drop', 'dup', 'delay') if rng.chance(0.6)]
  if not kinds or rng.chance(0.15):
    return out
  for _ in range(rng.int(1, max(1, int(6 * rate)))):
    k = rng.choice(kinds)
    d = rng.randrange(dispatches)
    if k == 'stall':
      out.append(dict(kind=k, dispatch=d, device=rng.randrange(ndev),
                      at=rng.randrange(colls), ticks=rng.choice([50, 1000, 9999])))
    elif k == 'drop':
      out.append(dict(kind=k, dispatch=d, msg=rng.randrange(msgs),
                      times=rng.int(1, 3)))
    elif k == 'dup':
      out.append(dict(kind=k, dispatch=d, msg=rng.randrange(msgs)))
    else:
      out.append(dict(kind=k, dispatch=d, msg=rng.randrange(msgs),
                      ticks=rng.choice([20, 300, 5000])))
  return out


def crash_faults(rng, ndev, dispatches=6, colls=8):
  """Faults that make a dispatch fail; the caller retries."""
  out = []
  for _ in range(rng.int(1, 2)):
    d = rng.randrange(dispatches)
    if rng.chance(0.5):
      out.append(dict(kind='dispatch_oom', dispatch=d))
    else:
      out.append(dict(kind='device_crash', dispatch=d,
                      device=rng.randrange(ndev), at=rng.randrange(colls)))
  return out


def with_retries(fn, stats, limit=10):
  """The client: repeats a call that failed with an injected fault."""
  from dst.core import SimDispatchError, Violation
  for _ in range(limit):
    try:
      return fn()
    except SimDispatchError:
      stats.count('client_retries')
  raise Violation('no-progress', f'still failing after {limit} retries')
