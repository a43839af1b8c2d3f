"""Choices, violations, statistics: what every simulated run is made of.

A run is a pure function of a *case*:

  case = {'prop': id, 'workload': {...}, 'sched': {...}, 'faults': [...]}

`workload` is explicit data, `faults` an explicit list of (where, what), and
`sched` says how the scheduler resolves its choices: from a seeded PRNG
({'seed': n}), first-in-first-out ({'fifo': true}) or from a recorded list
({'choices': [...]}), after whose end every choice is 0 (= FIFO).
"""
import hashlib
import random


class Violation(Exception):
  """The code under test broke the property."""

  def __init__(self, kind, message):
    super().__init__(f'{kind}: {message}')
    self.kind = kind
    self.message = message


class HarnessError(Exception):
  """The simulator cannot carry out the run (not a verdict on the code)."""


class StubMissing(BaseException):
  """The code asked a stub for something the stub does not model."""


class SimCrash(BaseException):
  """The simulated process is killed here; nothing may catch it."""


class SimDispatchError(RuntimeError):
  """A device or the runtime refuses a dispatch (as XlaRuntimeError would)."""


def derive_seed(*parts):
  h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
  return int.from_bytes(h[:8], 'big') & ((1 << 62) - 1)


class Rng(random.Random):
  """random.Random with a few generators for workloads."""

  def chance(self, p):
    return self.random() < p

  def int(self, lo, hi):
    """Uniform in [lo, hi]."""
    return self.randint(lo, hi)

  def weighted(self, pairs):
    total = sum(w for _, w in pairs)
    r = self.random() * total
    for v, w in pairs:
      r -= w
      if r < 0:
        return v
    return pairs[-1][0]


class Choices:
  """The scheduler's only source of choice; records what it decided."""

  def __init__(self, sched):
    self.sched = sched
    self.log = []
    self.pos = 0
    self._rng = None
    self._list = None
    if 'seed' in sched:
      self._rng = random.Random(sched['seed'])
      # Swarm: how wild this run's schedule is.
      self.wild = sched.get('wild', 1.0)
    elif 'choices' in sched:
      self._list = sched['choices']
    elif not sched.get('fifo'):
      raise HarnessError(f'bad schedule {sched}')

  def pick(self, n):
    """An integer in [0, n); 0 is the calmest choice."""
    if n <= 1:
      return 0
    if self._rng is not None:
      v = self._rng.randrange(n) if self._rng.random() < self.wild else 0
    elif self._list is not None:
      v = self._list[self.pos] % n if self.pos < len(self._list) else 0
    else:
      v = 0
    self.pos += 1
    self.log.append(v)
    return v


class Stats:
  """Counters of one run, merged over all runs of a check."""

  def __init__(self):
    self.counts = {}
    self.faults = {}
    self.probes = {}
    self.sim_time = 0.0
    self.trace = hashlib.sha256()
    self.events = 0

  def count(self, name, k=1):
    self.counts[name] = self.counts.get(name, 0) + k

  def fault(self, kind, k=1):
    self.faults[kind] = self.faults.get(kind, 0) + k
    self.event('fault', kind)

  def probe(self, name, k=1):
    self.probes[name] = self.probes.get(name, 0) + k

  def event(self, *what):
    """One step of the run's event log (hashed; used for determinism)."""
    self.events += 1
    self.trace.update(repr(what).encode())

  def digest(self):
    return self.trace.hexdigest()[:16]


class Context:
  """Everything a workload needs while one case runs."""

  def __init__(self, case):
    self.case = case
    self.w = case['workload']
    self.faults = [dict(f) for f in case.get('faults', [])]
    self.choices = Choices(case['sched'])
    self.stats = Stats()
    self.record = None        # what every mapped program computed, if a list

  def faults_of(self, *kinds):
    return [f for f in self.faults if f['kind'] in kinds]


def check(cond, kind, message):
  if not cond:
    raise Violation(kind, message() if callable(message) else message)
