"""Simulated devices, network and dispatch.

Devices are generators (dst.plan) stepped by one event loop with simulated
time. All communication goes through `Dispatch`, where every delay comes from
the run's choices and every fault from its fault list.
"""
import hashlib
import heapq
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from dst import plan as planlib
from dst.core import (check, HarnessError, SimDispatchError, Violation)

TICK = 1e-6          # simulated seconds per tick
RTO = 200            # retransmission timeout in ticks
MAX_ARRAY = 1 << 22     # elements: a buffer that only ever grows
MAX_COLLECTIVES = 4000   # per device and dispatch
MAX_DISPATCHES = 400     # per run

REDUCERS = {
    'psum': np.add, 'psum2': np.add, 'psum_invariant': np.add,
    'pmax': np.maximum, 'pmin': np.minimum,
}


def _names(x):
  return x if isinstance(x, (tuple, list)) else (x,)


def digest(arrays):
  h = hashlib.sha256()
  for a in arrays:
    a = np.ascontiguousarray(np.asarray(a))
    h.update(str((a.shape, a.dtype)).encode())
    h.update(a.tobytes())
  return h.hexdigest()[:12]


class Topology:
  """Devices with coordinates along named axes."""

  def __init__(self, axes):
    self.axes = [(n, int(s)) for n, s in axes]       # [(name, size)]
    self.shape = tuple(s for _, s in self.axes)
    self.size = int(np.prod(self.shape)) if self.shape else 1
    self.pos = {n: i for i, (n, _) in enumerate(self.axes)}
    self.coords = list(itertools.product(*[range(s) for s in self.shape]))

  def index(self, dev, names):
    i = 0
    for n in names:
      k = self.pos[n]
      i = i * self.shape[k] + self.coords[dev][k]
    return i

  def group(self, dev, names):
    """Devices that differ from `dev` only along `names`, in index order."""
    keep = [i for i, (n, _) in enumerate(self.axes) if n not in names]
    c = self.coords[dev]
    members = [d for d in range(self.size)
               if all(self.coords[d][i] == c[i] for i in keep)]
    return sorted(members, key=lambda d: self.index(d, names))


class Loop:
  """Discrete-event loop with simulated time."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.now = 0
    self.seq = 0
    self.heap = []
    self.ndispatch = 0
    self.dispatches = []

  def after(self, ticks, fn):
    self.seq += 1
    heapq.heappush(self.heap, (self.now + ticks, self.seq, fn))

  def jitter(self, n=8):
    return 1 + self.ctx.choices.pick(n)

  def step(self):
    t, _, fn = heapq.heappop(self.heap)
    self.now = max(self.now, t)
    self.ctx.stats.sim_time = self.now * TICK
    fn()

  def run_until(self, done, stuck):
    while not done():
      if not self.heap:
        stuck()
        return
      self.step()


class Device:

  def __init__(self, dispatch, idx, gen):
    self.dispatch, self.idx, self.gen = dispatch, idx, gen
    self.ncoll = 0
    self.waiting = None     # (key, prim)
    self.done = False
    self.result = None
    self.req = None
    self.seq = []           # collectives entered, if recorded

  def step(self, value, first=False):
    d = self.dispatch
    if d.failed:
      return
    self.waiting = None
    while True:
      try:
        req = self.gen.send(None) if first else self.gen.send(value)
      except StopIteration as e:
        self.done = True
        self.result = e.value
        d.loop.ctx.stats.event('done', d.number, self.idx)
        d.finished()
        return
      first = False
      if isinstance(req, planlib.SpmdRequest):
        raise HarnessError('nested shard_map/pmap inside a device program')
      if req.prim == 'axis_index':
        names = _names(req.params['axis_name'])
        value = [np.int32(d.topo.index(self.idx, names))]
        continue
      if req.prim == planlib.PROBE:
        d.probes.append((self.idx, req.params['tag'],
                         [np.asarray(v) for v in req.vals[1:]]))
        value = [req.vals[0]]
        continue
      break
    self.ncoll += 1
    check(self.ncoll <= MAX_COLLECTIVES, 'no-progress',
          f'device {self.idx} entered more than {MAX_COLLECTIVES} collectives')
    k = self.ncoll - 1
    for f in d.faults:
      if (f.get('device') == self.idx and f.get('at') == k
          and not f.get('_done')):
        if f['kind'] == 'stall':
          f['_done'] = True
          d.loop.ctx.stats.fault('stall')
          d.loop.after(f['ticks'], lambda r=req: self.enter(r))
          return
        if f['kind'] == 'device_crash':
          f['_done'] = True
          d.loop.ctx.stats.fault('device_crash')
          d.fail(f'device {self.idx} died')
          return
    self.enter(req)

  def enter(self, req):
    d = self.dispatch
    if d.failed:
      return
    d.loop.ctx.stats.event('enter', d.number, self.idx, req.key, req.prim)
    self.waiting = (req.key, req.prim)
    if d.loop.ctx.record is not None:
      p = req.params
      self.seq.append((
          _names(p.get('axes', p.get('axis_name'))), req.key, req.prim,
          str(p.get('perm')), tuple((np.shape(v), str(np.asarray(v).dtype))
                                    for v in req.vals)))
    d.collective(self, req)

  def resume(self, value):
    d = self.dispatch
    if d.failed:
      return
    d.loop.after(d.loop.jitter(), lambda: self.step(value))


class Dispatch:
  """One SPMD program running on all devices of a topology."""

  def __init__(self, loop, topo, number):
    self.loop, self.topo, self.number = loop, topo, number
    self.devices = {}
    self.faults = [f for f in loop.ctx.faults
                   if f.get('dispatch') in (None, number)]
    self.inbox = {}         # (dst, key) -> [(src, val, meta)]
    self.rendezvous = {}    # (key, group) -> dict
    self.delivered = set()
    self.probes = []
    self.nmsg = 0
    self.failed = None
    self.on_finish = []

  def start(self, idx, gen):
    dev = Device(self, idx, gen)
    self.devices[idx] = dev
    self.loop.after(self.loop.jitter(), lambda: dev.step(None, first=True))

  def fail(self, why):
    self.failed = why
    for fn in self.on_finish:
      fn()

  def finished(self):
    for fn in self.on_finish:
      fn()

  def all_done(self):
    return (len(self.devices) == self.topo.size
            and all(d.done for d in self.devices.values()))

  def describe_wait(self):
    return '; '.join(
        f'device {i} ' + ('finished' if d.done else f'waits in {d.waiting[1]}'
                          f' at {d.waiting[0]}' if d.waiting else 'idle')
        for i, d in sorted(self.devices.items()))

  def final_check(self):
    left = [(k, len(v)) for k, v in self.inbox.items() if v]
    check(not left, 'orphan-message',
          lambda: f'messages never received: {left[:4]}')
    open_ = [k for k, r in self.rendezvous.items() if not r['closed']]
    check(not open_, 'orphan-message',
          lambda: f'collectives entered by some devices only: {open_[:4]}')
    if self.loop.ctx.record is not None:
      self.lockstep()

  def lockstep(self):
    """Devices that communicate enter the same collectives in one order."""
    sets = {q[0] for d in self.devices.values() for q in d.seq}
    for axes in sorted(sets, key=str):
      names = tuple(a for a in axes if not isinstance(a, int))
      for i, dev in sorted(self.devices.items()):
        mine = [q for q in dev.seq if q[0] == axes]
        j = self.topo.group(i, names)[0]
        other = [q for q in self.devices[j].seq if q[0] == axes]
        if mine != other:
          k = next((k for k, (a, b) in enumerate(zip(mine, other)) if a != b),
                   min(len(mine), len(other)))
          at = lambda s: s[k][1:] if k < len(s) else 'nothing'
          raise Violation('lockstep', f'collective {k} of device {i} is '
                          f'{at(mine)}, of device {j} {at(other)}')
    rec = self.loop.ctx.record
    rec.append((self.number, [digest(self.devices[i].result)
                              for i in sorted(self.devices)],
                {i: len(d.seq) for i, d in sorted(self.devices.items())}))

  # -- network ---------------------------------------------------------------
  def transmit(self, deliver):
    """Delivers through a lossy network with acknowledgement and retry."""
    stats = self.loop.ctx.stats
    n = self.nmsg
    self.nmsg += 1
    delay = self.loop.jitter()
    copies = 1
    for f in self.faults:
      if f.get('msg') == n and not f.get('_done'):
        if f['kind'] == 'drop':
          f['_done'] = True
          stats.fault('drop', f.get('times', 1))
          delay += RTO * f.get('times', 1)
        elif f['kind'] == 'dup':
          f['_done'] = True
          stats.fault('dup')
          copies = 2
        elif f['kind'] == 'delay':
          f['_done'] = True
          stats.fault('delay')
          delay += f['ticks']
    mid = n

    def arrive():
      if self.failed:
        return
      if mid in self.delivered:        # transport drops the duplicate
        return
      self.delivered.add(mid)
      stats.count('messages')
      deliver()

    for c in range(copies):
      self.loop.after(delay + 5 * c, arrive)

  # -- collectives -----------------------------------------------------------
  def collective(self, dev, req):
    prim = req.prim
    if prim == 'ppermute':
      self._ppermute(dev, req)
    elif prim in REDUCERS or prim in ('all_gather', 'all_gather_invariant',
                                      'all_to_all', 'reduce_scatter'):
      self._rendezvous(dev, req)
    else:
      raise HarnessError(f'collective {prim} is not modelled')

  def _ppermute(self, dev, req):
    names = _names(req.params['axis_name'])
    group = self.topo.group(dev.idx, names)
    me = self.topo.index(dev.idx, names)
    perm = tuple((int(s), int(t)) for s, t in req.params['perm'])
    vals = [np.asarray(v) for v in req.vals]
    meta = (req.prim, perm, tuple((v.shape, str(v.dtype)) for v in vals),
            tuple(group))
    for s, t in perm:
      check(0 <= s < len(group) and 0 <= t < len(group), 'bad-permutation',
            f'{perm} on {len(group)} devices')
    sends = [t for s, t in perm if s == me]
    srcs = [s for s, t in perm if t == me]
    check(len(sends) <= 1 and len(srcs) <= 1, 'bad-permutation',
          f'device {me} appears twice in {perm}')
    for t in sends:
      dst = group[t]
      def deliver(dst=dst):
        self.loop.ctx.stats.event('msg', self.number, dev.idx, dst, req.key)
        self.inbox.setdefault((dst, req.key), []).append((dev.idx, vals, meta))
        self._try_receive(dst)
      self.transmit(deliver)
    if not srcs:
      dev.resume([np.zeros_like(v) for v in vals])
    else:
      dev.req = (req.key, meta, group[srcs[0]])
      self._try_receive(dev.idx)

  def _try_receive(self, idx):
    dev = self.devices.get(idx)
    if dev is None or dev.req is None or not dev.waiting:
      return
    key, meta, src = dev.req
    if dev.waiting[0] != key:
      return
    box = self.inbox.get((idx, key))
    if not box:
      return
    got_src, vals, got_meta = box.pop(0)
    check(got_meta == meta and got_src == src, 'collective-mismatch',
          lambda: f'device {idx} expects {meta} from {src} but device '
          f'{got_src} sent {got_meta}')
    dev.req = None
    dev.resume([v for v in vals])

  def _rendezvous(self, dev, req):
    p = req.params
    vals = [np.asarray(v) for v in req.vals]
    axes = p.get('axes', p.get('axis_name'))
    axes = _names(axes)
    names = tuple(a for a in axes if not isinstance(a, int))
    positional = tuple(a for a in axes if isinstance(a, int))
    if positional:
      red = REDUCERS[req.prim]
      vals = [red.reduce(v, axis=positional, dtype=v.dtype) for v in vals]
    group = self.topo.group(dev.idx, names)
    aig = p.get('axis_index_groups')
    if aig is not None:
      me = self.topo.index(dev.idx, names)
      mine = [g for g in aig if me in g]
      check(len(mine) == 1, 'collective-mismatch', f'groups {aig}')
      group = [group[i] for i in mine[0]]
    extra = tuple(sorted((k, str(v)) for k, v in p.items()
                         if k not in ('axes', 'axis_name')))
    meta = (req.prim, tuple(group), names, extra,
            tuple((v.shape, str(v.dtype)) for v in vals))
    rkey = (req.key, tuple(group))
    r = self.rendezvous.setdefault(
        rkey, dict(meta=meta, arrived=[], vals={}, closed=False))
    check(r['meta'] == meta, 'collective-mismatch',
          lambda: f'device {dev.idx} entered {meta} but another device '
          f'entered {r["meta"]}')
    check(not r['closed'] and dev.idx not in r['vals'], 'collective-mismatch',
          lambda: f'device {dev.idx} entered {req.key} twice')

    def deliver():
      self.loop.ctx.stats.event('contrib', self.number, dev.idx, req.key)
      r['arrived'].append(dev.idx)
      r['vals'][dev.idx] = vals
      if len(r['arrived']) == len(group):
        r['closed'] = True
        self._complete(req.prim, p, group, r)

    self.transmit(deliver)

  def _complete(self, prim, p, group, r):
    results = {}
    if prim in REDUCERS:
      op = REDUCERS[prim]
      # Reduction order: rank order, or the order of arrival.
      fixed = self.loop.ctx.w.get('fixed_order')
      order = (group if fixed or self.loop.ctx.choices.pick(2) == 0
               else r['arrived'])
      out = []
      for k in range(len(r['vals'][group[0]])):
        with np.errstate(all='ignore'):
          acc = np.array(r['vals'][order[0]][k])
          for d in order[1:]:
            acc = op(acc, r['vals'][d][k]).astype(acc.dtype)
        out.append(acc)
      for d in group:
        results[d] = out
    elif prim in ('all_gather', 'all_gather_invariant'):
      ax, tiled = p['all_gather_dimension'], p['tiled']
      out = []
      for k in range(len(r['vals'][group[0]])):
        parts = [r['vals'][d][k] for d in group]
        out.append(np.concatenate(parts, axis=ax) if tiled
                   else np.stack(parts, axis=ax))
      for d in group:
        results[d] = out
    elif prim == 'all_to_all':
      sa, ca = p['split_axis'], p['concat_axis']
      tiled = p.get('tiled', False)
      for i, d in enumerate(group):
        out = []
        for k in range(len(r['vals'][d])):
          if tiled:
            parts = [np.split(r['vals'][s][k], len(group), axis=sa)[i]
                     for s in group]
            out.append(np.concatenate(parts, axis=ca))
          else:
            parts = [np.take(r['vals'][s][k], i, axis=sa) for s in group]
            out.append(np.stack(parts, axis=ca))
        results[d] = out
    elif prim == 'reduce_scatter':
      ax, tiled = p['scatter_dimension'], p['tiled']
      for i, d in enumerate(group):
        out = []
        for k in range(len(r['vals'][d])):
          acc = np.array(r['vals'][group[0]][k])
          for s in group[1:]:
            acc = acc + r['vals'][s][k]
          if tiled:
            out.append(np.split(acc, len(group), axis=ax)[i])
          else:
            out.append(np.take(acc, i, axis=ax))
        results[d] = out
    for d in group:
      dev = self.devices[d]
      self.transmit(lambda dev=dev, v=results[d]: dev.resume(v))


class Sim:
  """One simulated machine: devices, network and a single controlling host."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.loop = Loop(ctx)

  def next_dispatch(self, topo):
    n = self.loop.ndispatch
    self.loop.ndispatch += 1
    check(n < MAX_DISPATCHES, 'no-progress',
          f'more than {MAX_DISPATCHES} dispatches in one run')
    self.ctx.stats.count('dispatches')
    d = Dispatch(self.loop, topo, n)
    for f in d.faults:
      if f['kind'] == 'dispatch_oom' and not f.get('_done'):
        f['_done'] = True
        self.ctx.stats.fault('dispatch_oom')
        raise SimDispatchError('RESOURCE_EXHAUSTED: out of memory (simulated)')
    return d

  def run_spmd(self, topo, plan, consts, per_device_args):
    d = self.next_dispatch(topo)
    size = max([np.size(a) for a in per_device_args[0]], default=0)
    check(size * topo.size <= MAX_ARRAY, 'no-progress',
          f'a buffer has grown to {size} elements per device')
    for i in range(topo.size):
      d.start(i, plan.run(consts, per_device_args[i], ()))

    def stuck():
      raise Violation('deadlock', d.describe_wait())

    self.loop.run_until(lambda: d.failed or d.all_done(), stuck)
    if d.failed:
      self.loop.heap.clear()
      raise SimDispatchError(f'INTERNAL: {d.failed} (simulated)')
    # let acknowledgements and stragglers arrive
    while self.loop.heap:
      self.loop.step()
    d.final_check()
    self.ctx.stats.count('device_programs', topo.size)
    return [d.devices[i].result for i in range(topo.size)]

  # -- pmap ------------------------------------------------------------------
  def pmap_extent(self, local):
    return local, 0

  def run_pmap(self, axis, total, first, local, plan, consts, per_dev, closed):
    topo = Topology([(axis, total)])
    return self.run_spmd(topo, plan, consts, per_dev)

  # -- host programs ---------------------------------------------------------
  def run_host_program(self, plan, consts, args):
    gen = plan.run(consts, args, ())
    value = None
    try:
      req = gen.send(None)
      while True:
        if not isinstance(req, planlib.SpmdRequest):
          raise HarnessError(f'collective {req.prim} outside a device program')
        value = self._spmd_eqn(req)
        req = gen.send(value)
    except StopIteration as e:
      return e.value

  def _spmd_eqn(self, req):
    e, p = req.eqn, req.eqn.params
    if e.primitive.name == 'shard_map':
      mesh = p['mesh']
      topo = Topology([(n, mesh.shape[n]) for n in mesh.axis_names])
      in_specs, out_specs = p['in_specs'], p['out_specs']
      per_dev = [[_shard(v, s, topo, d) for v, s in zip(req.vals, in_specs)]
                 for d in range(topo.size)]
      plan = planlib.plan_of(p['jaxpr'])
      outs = self.run_spmd(topo, plan, (), per_dev)
      return [_unshard([np.asarray(o[k]) for o in outs], s, topo)
              for k, s in enumerate(out_specs)]
    raise HarnessError(f'{e.primitive.name} inside a traced program')


def _dim_names(spec, i):
  s = spec[i] if i < len(spec) else None
  if s is None:
    return ()
  return s if isinstance(s, tuple) else (s,)


def _shard(v, spec, topo, dev):
  v = np.asarray(v)
  sl = []
  for i in range(v.ndim):
    names = _dim_names(spec, i)
    k = int(np.prod([topo.shape[topo.pos[n]] for n in names])) if names else 1
    n = v.shape[i] // k
    j = topo.index(dev, names) if names else 0
    sl.append(slice(j * n, (j + 1) * n))
  return v[tuple(sl)]


def _unshard(outs, spec, topo):
  o = outs[0]
  dims = [_dim_names(spec, i) for i in range(o.ndim)]
  shape = [n * int(np.prod([topo.shape[topo.pos[a]] for a in names]))
           if names else n for n, names in zip(o.shape, dims)]
  res = np.zeros(shape, o.dtype)
  seen = {}
  for d in range(topo.size):
    sl = []
    for i, names in enumerate(dims):
      n = o.shape[i]
      j = topo.index(d, names) if names else 0
      sl.append(slice(j * n, (j + 1) * n))
    key = tuple((s.start, s.stop) for s in sl)
    if key in seen:
      check(np.ascontiguousarray(outs[d]).tobytes() == seen[key].tobytes(),
            'replica-divergence',
            f'device {d} holds a different copy of a replicated output')
    else:
      seen[key] = np.ascontiguousarray(outs[d])
      outs[d] = seen[key]
      res[tuple(sl)] = outs[d]
  return jnp.asarray(res)
