"""Simulated hosts: several processes of one job, their clocks and devices.

Every simulated process is a thread, but only the one holding the baton runs;
it gives the baton back whenever it waits (for devices, for a barrier, for the
disk, for time). The event loop that also moves messages decides who is next.
"""
import sys
import threading
import time
import types

import jax
import numpy as np

from dst import intercept, simfs, spmd
from dst.core import (HarnessError, SimCrash, SimDispatchError, StubMissing,
                      Violation, check)

_tls = threading.local()
_real_time = dict(time=time.time, monotonic=time.monotonic,
                  perf_counter=time.perf_counter, sleep=time.sleep)
MAX_STEPS = 400000


def host():
  """The simulated process the calling thread belongs to, if any."""
  return getattr(_tls, 'host', None)


class Host:
  """One simulated process."""

  def __init__(self, cluster, index):
    self.cluster, self.index = cluster, index
    self.go = threading.Semaphore(0)
    self.thread = None
    self.finished = False
    self.result = self.exc = None
    self.value = None
    self.npmap = 0
    self.nbarrier = 0
    self.waiting = 'starting'
    self.clock_calls = 0
    self.clock_offset = 0.0
    self.last_reading = 0.0

  # -- run by the scheduler -------------------------------------------------
  def resume(self, value=None):
    if self.finished:
      return
    self.value = value
    self.waiting = None
    self.go.release()
    self.cluster.baton.acquire()
    if isinstance(self.cluster.panic, BaseException):
      e, self.cluster.panic = self.cluster.panic, None
      raise e

  # -- run by the process ---------------------------------------------------
  def block(self, what):
    """Gives the baton away until somebody resumes this process."""
    if self.cluster.killed:
      raise SimCrash()
    self.waiting = what
    self.cluster.baton.release()
    self.go.acquire()
    if self.cluster.killed:
      raise SimCrash()
    v, self.value = self.value, None
    return v

  def pause(self, ticks=None, what='the processor'):
    loop = self.cluster.loop
    t = loop.jitter() if ticks is None else ticks
    loop.after(t, self.resume)
    self.block(what)

  def clock(self, counted):
    n = self.clock_calls
    self.clock_calls += counted
    for f in self.cluster.ctx.faults if counted else ():
      if (f['kind'] == 'clock_jump' and f.get('host', 0) == self.index
          and f['at'] == n and not f.get('_done')):
        f['_done'] = True
        self.cluster.ctx.stats.fault('clock_jump')
        if f['delta'] == 'repeat':
          # set back to exactly what it showed last
          self.clock_offset += self.last_reading - self.reading()
        else:
          self.clock_offset += f['delta']
    now = self.reading()
    if counted:
      self.last_reading = now
    return now

  def reading(self):
    c = self.cluster
    now = (c.epoch_time + c.base + c.loop.now * c.tick + self.clock_offset
           + c.skew[self.index])
    return round(now, 6)

  def main(self, fn):
    _tls.host = self
    self.go.acquire()
    try:
      with intercept.active(HostSim(self)):
        if not self.cluster.killed:
          self.result = fn(self)
    except SimCrash:
      self.exc = None if self.cluster.killed else 'crash'
    except (Violation, HarnessError, StubMissing) as e:
      self.cluster.panic = e
    except BaseException as e:  # pylint: disable=broad-except
      self.exc = e
    self.finished = True
    self.cluster.baton.release()


class HostSim:
  """What jit/pmap calls of one process talk to."""

  def __init__(self, h):
    self.h = h
    self.ctx = h.cluster.ctx
    self.loop = h.cluster.loop

  def pmap_extent(self, local):
    c = self.h.cluster
    if c.nhosts > 1:
      check(local == c.local, 'pmap-size', lambda: (
          f'a mapped call over {local} entries on a host with {c.local} '
          'devices'))
      return c.nhosts * c.local, self.h.index * c.local
    check(local <= c.local, 'pmap-size', lambda: (
        f'a mapped call over {local} entries on a host with {c.local} devices'))
    return local, 0

  def run_pmap(self, axis, total, first, local, plan, consts, per_dev, closed):
    c, h = self.h.cluster, self.h
    n = h.npmap
    h.npmap += 1
    d = c.dispatch(n, axis, total)
    if d.failed:
      raise SimDispatchError(f'INTERNAL: {d.failed} (simulated)')
    mine = range(first, first + local)
    for f in d.faults:
      if f['kind'] == 'dispatch_oom' and not f.get('_done') and (
          f.get('host', 0) % c.nhosts == h.index):
        f['_done'] = True
        c.ctx.stats.fault('dispatch_oom')
        raise SimDispatchError('RESOURCE_EXHAUSTED: out of memory (simulated)')
    c.ctx.stats.event('launch', h.index, n)
    state = {'waiting': False}

    def progress():
      if state['waiting'] and (
          d.failed or all(i in d.devices and d.devices[i].done for i in mine)):
        state['waiting'] = False
        c.loop.after(1, h.resume)

    d.on_finish.append(progress)
    for k, i in enumerate(mine):
      d.start(i, plan.run(consts, per_dev[k], ()))
    state['waiting'] = True
    h.block(f'mapped call {n}')
    if d.failed:
      raise SimDispatchError(f'INTERNAL: {d.failed} (simulated)')
    return [d.devices[i].result for i in mine]

  def observe(self, fun, args, kwargs, out):
    c = self.h.cluster
    if c.observer is not None:
      c.observer(self.h, self.h.npmap - 1, fun, args, kwargs, out)

  def run_host_program(self, plan, consts, args):
    return spmd.Sim.run_host_program(self, plan, consts, args)

  def _spmd_eqn(self, req):
    raise HarnessError('shard_map in a multi-process program')


class Cluster:
  """A job of several simulated processes sharing devices and a disk."""

  def __init__(self, ctx, nhosts, local, inc=0, base_time=0.0, tick=1e-3,
               skew=None):
    self.ctx = ctx
    self.inc = inc
    self.loop = spmd.Loop(ctx)
    self.nhosts, self.local = nhosts, local
    self.hosts = []
    self.baton = threading.Semaphore(0)
    self.panic = None
    self.killed = False
    self.kill_reason = None
    self.epoch_time = 1.7e9
    self.base = base_time
    self.tick = tick
    self.skew = skew or [0.0] * nhosts
    self.dispatches = {}
    self.barriers = {}
    self.observer = None
    self.steps = 0
    self.fs = None
    self.kills = [f for f in ctx.faults
                  if f['kind'] == 'kill' and f.get('inc', 0) == inc]

  def dispatch(self, n, axis, total):
    d = self.dispatches.get(n)
    if d is None:
      d = spmd.Dispatch(self.loop, spmd.Topology([(axis, total)]), n)
      d.axis = axis
      d.faults = [f for f in d.faults if f.get('inc', 0) == self.inc]
      self.dispatches[n] = d
      self.ctx.stats.count('dispatches')
    check(d.axis == axis and d.topo.size == total, 'program-mismatch',
          lambda: f'processes disagree on mapped call {n}: axis {d.axis} of '
          f'{d.topo.size} and {axis} of {total}')
    return d

  def barrier(self, name):
    h = host()
    n = h.nbarrier
    h.nbarrier += 1
    b = self.barriers.setdefault(n, dict(name=name, waiting=[]))
    check(b['name'] == name, 'barrier-mismatch',
          lambda: f'process {h.index} is at barrier {name!r}, others at '
          f'{b["name"]!r}')
    self.ctx.stats.event('barrier', h.index, name)
    b['waiting'].append(h)
    if len(b['waiting']) == self.nhosts:
      for o in b['waiting']:
        self.loop.after(self.loop.jitter(), o.resume)
    h.block(f'barrier {name!r}')

  def kill(self, reason):
    """Every process of the job is killed where it stands."""
    if self.killed:
      return
    self.killed = True
    self.kill_reason = reason
    self.ctx.stats.event('killed', reason)
    if self.fs is not None:
      self.fs.kill()

  def _reap(self):
    """Lets the threads of killed processes end."""
    for h in self.hosts:
      for _ in range(1000):
        if h.finished:
          break
        h.go.release()
        self.baton.acquire()
      if not h.finished:
        raise HarnessError('a killed process does not end')
      h.thread.join()

  def run(self, fn):
    """Runs fn(host) on every process; returns 'done', 'killed' or 'failed'."""
    self.hosts = [Host(self, i) for i in range(self.nhosts)]
    for h in self.hosts:
      h.thread = threading.Thread(target=h.main, args=(fn,), daemon=True)
      h.thread.start()
      self.loop.after(self.loop.jitter(), h.resume)
    try:
      while not all(h.finished for h in self.hosts):
        if self.killed:
          break
        if any(h.exc is not None for h in self.hosts):
          # the job manager kills the rest of the job
          self.kill('a process failed')
          break
        if not self.loop.heap:
          raise Violation('deadlock', '; '.join(
              f'process {h.index} ' + ('ended' if h.finished else
                                       f'waits for {h.waiting}')
              for h in self.hosts) + '; ' + '; '.join(
                  f'call {n}: {d.describe_wait()}'
                  for n, d in sorted(self.dispatches.items())
                  if not d.all_done() and not d.failed))
        self.steps += 1
        check(self.steps < MAX_STEPS, 'no-progress',
              f'more than {MAX_STEPS} simulated events')
        for f in self.kills:
          if f['at'] == self.steps and not f.get('_done'):
            f['_done'] = True
            self.ctx.stats.fault('kill')
            self.kill('killed')
        if self.killed:
          break
        self.loop.step()
    except BaseException:
      self.kill('simulation aborted')
      raise
    finally:
      self._reap()
      self.loop.heap.clear()
    failed = [h for h in self.hosts if isinstance(h.exc, BaseException)]
    if failed:
      return 'failed'
    if self.killed:
      return 'killed'
    for d in self.dispatches.values():
      if not d.failed:
        d.final_check()
    return 'done'


class Solo:
  """A process that runs on its own: identity and clock, no scheduling."""

  def __init__(self, index, nhosts, local=1, start=1.7e9, rate=0.01):
    self.index = index
    self.cluster = types.SimpleNamespace(
        nhosts=nhosts, local=local, killed=False, tick=rate,
        barrier=lambda name: None)
    self.now, self.rate = start, rate

  def clock(self, counted):
    self.now += self.rate
    return self.now

  def pause(self, ticks=1, what=None):
    self.now += self.rate * (ticks or 1)

  def __enter__(self):
    self.old = host()
    _tls.host = self
    return self

  def __exit__(self, *a):
    _tls.host = self.old


# -- seams -------------------------------------------------------------------
def _time_of(name):
  real = _real_time[name]

  def f():
    h = host()
    if h is None or h.cluster.killed:
      return real()
    # only readings by the code under test are counted: how often libraries
    # look at the clock depends on their caches
    return h.clock(sys._getframe(1).f_code.co_filename.startswith('/repo/'))
  f.__name__ = name
  return f


def _sleep(s):
  h = host()
  if h is None:
    return _real_time['sleep'](s)
  h.pause(max(1, int(s / h.cluster.tick)), what='sleep')


class SimDevice:
  """A handle of a simulated device."""

  def __init__(self, i, h):
    self.id, self.process_index = i, h
    self.platform = self.device_kind = 'cpu'

  def __repr__(self):
    return f'SimDevice({self.id})'


def _per_host(name, value):
  real = getattr(jax, name)

  def f(*a, **k):
    h = host()
    if h is None:
      return real(*a, **k)
    return value(h)
  f.__name__ = name
  setattr(jax, name, f)
  return f


def _put_sharded(xs, devices):
  h = host()
  if h is None:
    return _real_put['sharded'](xs, devices)
  check(len(xs) == len(devices), 'pmap-size',
        lambda: f'{len(xs)} shards for {len(devices)} devices')
  return jax.tree_util.tree_map(
      lambda *x: jax.numpy.asarray(np.stack([np.asarray(v) for v in x])), *xs)


def _put_replicated(x, devices):
  h = host()
  if h is None:
    return _real_put['replicated'](x, devices)
  return jax.tree_util.tree_map(
      lambda v: jax.numpy.asarray(np.stack([np.asarray(v)] * len(devices))), x)


def _sync(name):
  h = host()
  if h is None:
    return _real_sync(name)
  h.cluster.barrier(name)


_real_put = {}
_real_sync = None


def install():
  """Before swirl_fem, flax or clu are imported."""
  global _real_sync
  time.time = _time_of('time')
  time.monotonic = _time_of('monotonic')
  time.perf_counter = _time_of('perf_counter')
  time.sleep = _sleep
  _per_host('process_index', lambda h: h.index)
  _per_host('process_count', lambda h: h.cluster.nhosts)
  _per_host('local_device_count', lambda h: h.cluster.local)
  _per_host('device_count', lambda h: h.cluster.local * h.cluster.nhosts)
  _per_host('local_devices', lambda h: [
      SimDevice(h.index * h.cluster.local + i, h.index)
      for i in range(h.cluster.local)])
  _per_host('devices', lambda h: [
      SimDevice(i, i // h.cluster.local)
      for i in range(h.cluster.local * h.cluster.nhosts)])
  _real_put['sharded'] = jax.device_put_sharded
  _real_put['replicated'] = jax.device_put_replicated
  jax.device_put_sharded = _put_sharded
  jax.device_put_replicated = _put_replicated
  from jax.experimental import multihost_utils
  _real_sync = multihost_utils.sync_global_devices
  multihost_utils.sync_global_devices = _sync
  simfs.install()
