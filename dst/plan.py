"""Turns a traced program into a plan that one simulated device can step.

The program of the code under test is traced by the real JAX into a jaxpr.
A plan runs that jaxpr for ONE device as a generator: stretches without
communication are compiled and executed by real XLA; at every collective the
generator yields a request and is resumed by the simulator with the result.
Control flow that contains collectives (cond, while, scan) is stepped here, so
that devices may really take different branches or loop counts.
"""
import hashlib

import jax
from jax import lax
import jax.numpy as jnp
from jax.interpreters import ad
import numpy as np

try:
  from jax._src import core as jcore
except ImportError:  # pragma: no cover
  import jax.core as jcore

from dst.core import HarnessError

REAL_JIT = jax.jit
REAL_PMAP = jax.pmap

COLLECTIVES = {
    'psum', 'psum2', 'psum_invariant', 'pmax', 'pmin', 'ppermute',
    'all_gather', 'all_gather_invariant', 'all_to_all', 'reduce_scatter',
    'pgather', 'collective_permute', 'psend', 'precv', 'axis_index',
}
NOOP_COLLECTIVES = {'pvary', 'pbroadcast'}
PROBE = 'dst_probe'      # a value that a stub shows to the simulator
SPMD = {'shard_map', 'xla_pmap'}
SPECIAL = COLLECTIVES | NOOP_COLLECTIVES | SPMD | {PROBE}


def _sub_jaxprs(eqn):
  for v in eqn.params.values():
    for w in v if isinstance(v, (tuple, list)) else (v,):
      if isinstance(w, jcore.ClosedJaxpr):
        yield w.jaxpr
      elif isinstance(w, jcore.Jaxpr):
        yield w


_special_memo = {}


def is_special_eqn(eqn):
  if eqn.primitive.name in SPECIAL:
    # psum etc. over positional axes only are local
    axes = eqn.params.get('axes')
    if axes is not None and all(isinstance(a, int) for a in axes):
      return False
    return True
  return any(has_special(j) for j in _sub_jaxprs(eqn))


def has_special(jaxpr):
  key = id(jaxpr)
  hit = _special_memo.get(key)
  if hit is not None and hit[0] is jaxpr:
    return hit[1]
  r = any(is_special_eqn(e) for e in jaxpr.eqns)
  _special_memo[key] = (jaxpr, r)
  return r


def _consts_digest(jaxpr, h):
  for e in jaxpr.eqns:
    for v in e.params.values():
      for w in v if isinstance(v, (tuple, list)) else (v,):
        if isinstance(w, jcore.ClosedJaxpr):
          for c in w.consts:
            a = np.asarray(c)
            h.update(str((a.shape, a.dtype)).encode())
            h.update(a.tobytes())
          _consts_digest(w.jaxpr, h)
        elif isinstance(w, jcore.Jaxpr):
          _consts_digest(w, h)


def _meshes(jaxpr, out):
  """Meshes that the equations were traced under (not part of str(jaxpr))."""
  for e in jaxpr.eqns:
    m = getattr(getattr(e, 'ctx', None), 'cur_abstract_mesh', None)
    if m is not None:
      out.add(str(m))
    for v in list(e.invars) + list(e.outvars):
      sh = getattr(getattr(v, 'aval', None), 'sharding', None)
      m = getattr(sh, 'mesh', None)
      if m is not None:
        out.add(str(m))
    for sub in _sub_jaxprs(e):
      _meshes(sub, out)


_segment_cache = {}


def _compile_segment(invars, outvars, eqns):
  j = jcore.Jaxpr(constvars=(), invars=list(invars), outvars=list(outvars),
                  eqns=list(eqns))
  h = hashlib.sha256(str(j).encode())
  _consts_digest(j, h)
  meshes = set()
  _meshes(j, meshes)
  h.update(repr(sorted(meshes)).encode())
  key = h.digest()
  fn = _segment_cache.get(key)
  if fn is None:
    def run(*args):
      return jcore.eval_jaxpr(j, (), *args)
    fn = REAL_JIT(run)
    if len(_segment_cache) > 3000:
      _segment_cache.clear()
    _segment_cache[key] = fn
  return fn


probe_p = jcore.Primitive(PROBE)
probe_p.def_impl(lambda x, *ys, tag: x)
probe_p.def_abstract_eval(lambda x, *ys, tag: x)
ad.primitive_jvps[probe_p] = lambda primals, tangents, tag: (
    probe_p.bind(*primals, tag=tag), tangents[0])


def probe(x, *values, tag):
  """x, after showing the values to the simulator (for stubs only)."""
  return probe_p.bind(x, *values, tag=tag)


class CollRequest:
  """What a device asks the simulated network for."""
  __slots__ = ('key', 'prim', 'params', 'vals')

  def __init__(self, key, prim, params, vals):
    self.key, self.prim, self.params, self.vals = key, prim, params, vals


class SpmdRequest:
  """A host program reached a shard_map / pmap."""
  __slots__ = ('eqn', 'vals')

  def __init__(self, eqn, vals):
    self.eqn, self.vals = eqn, vals


class Plan:
  """Steps of one (open) jaxpr."""

  def __init__(self, jaxpr):
    self.jaxpr = jaxpr
    self.steps = []
    used_later = [set() for _ in range(len(jaxpr.eqns) + 1)]
    live = {v for v in jaxpr.outvars if isinstance(v, jcore.Var)}
    for i in range(len(jaxpr.eqns), -1, -1):
      used_later[i] = set(live)
      if i > 0:
        e = jaxpr.eqns[i - 1]
        live |= {v for v in e.invars if isinstance(v, jcore.Var)}
    buf = []

    def flush(i):
      if not buf:
        return
      defined, free = set(), []
      seen = set()
      for e in buf:
        for v in e.invars:
          if isinstance(v, jcore.Var) and v not in defined and v not in seen:
            seen.add(v)
            free.append(v)
        defined.update(e.outvars)
      outs = [v for e in buf for v in e.outvars
              if not isinstance(v, jcore.DropVar) and v in used_later[i]]
      fn = _compile_segment(free, outs, buf)
      self.steps.append(('local', fn, free, outs))
      buf.clear()

    for i, e in enumerate(jaxpr.eqns):
      if is_special_eqn(e):
        flush(i)
        self.steps.append(self._special(e))
      else:
        buf.append(e)
    flush(len(jaxpr.eqns))

  def _special(self, e):
    name = e.primitive.name
    if name in SPMD:
      return ('spmd', e)
    if name in NOOP_COLLECTIVES:
      return ('noop', e)
    if name in COLLECTIVES or name == PROBE:
      return ('coll', e)
    if name == 'cond':
      return ('cond', e, [plan_of_closed(b) for b in e.params['branches']])
    if name == 'while':
      return ('while', e, plan_of_closed(e.params['cond_jaxpr']),
              plan_of_closed(e.params['body_jaxpr']))
    if name == 'scan':
      return ('scan', e, plan_of_closed(e.params['jaxpr']))
    for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
      j = e.params.get(k)
      if isinstance(j, jcore.ClosedJaxpr):
        return ('call', e, plan_of_closed(j))
      if isinstance(j, jcore.Jaxpr):
        return ('call', e, (plan_of(j), ()))
    raise HarnessError(f'cannot step primitive {name}')

  def run(self, consts, args, path):
    env = {}

    def read(v):
      return v.val if isinstance(v, jcore.Literal) else env[v]

    for v, c in zip(self.jaxpr.constvars, consts):
      env[v] = c
    if len(args) != len(self.jaxpr.invars):
      raise HarnessError('argument count mismatch')
    for v, a in zip(self.jaxpr.invars, args):
      env[v] = a
    for n, step in enumerate(self.steps):
      kind = step[0]
      if kind == 'local':
        _, fn, ins, outs = step
        res = fn(*[env[v] for v in ins])
        for v, r in zip(outs, res):
          env[v] = r
        continue
      e = step[1]
      ins = [read(v) for v in e.invars]
      here = path + (n,)
      if kind == 'coll':
        res = yield CollRequest(here, e.primitive.name, e.params, ins)
      elif kind == 'noop':
        res = ins
      elif kind == 'spmd':
        res = yield SpmdRequest(e, ins)
      elif kind == 'cond':
        idx = int(np.asarray(ins[0]))
        idx = max(0, min(idx, len(step[2]) - 1))
        plan, cs = step[2][idx]
        res = yield from plan.run(cs, ins[1:], here + (idx,))
      elif kind == 'call':
        plan, cs = step[2]
        res = yield from plan.run(cs, ins, here)
      elif kind == 'while':
        cn, bn = e.params['cond_nconsts'], e.params['body_nconsts']
        cc, bc, carry = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        it = 0
        while True:
          plan, cs = step[2]
          p, = yield from plan.run(cs, cc + carry, here + ('c', it))
          p = np.asarray(p)
          if not (p.item() if p.ndim == 0 else p.any()):
            break
          plan, cs = step[3]
          carry = yield from plan.run(cs, bc + carry, here + ('b', it))
          carry = list(carry)
          it += 1
        res = carry
      elif kind == 'scan':
        res = yield from self._scan(e, step[2], ins, here)
      else:
        raise HarnessError(kind)
      for v, r in zip(e.outvars, res):
        if not isinstance(v, jcore.DropVar):
          env[v] = r
    return [read(v) for v in self.jaxpr.outvars]

  def _scan(self, e, body, ins, here):
    p = e.params
    nc, ncar, length = p['num_consts'], p['num_carry'], p['length']
    consts, carry, xs = ins[:nc], ins[nc:nc + ncar], ins[nc + ncar:]
    plan, cs = body
    ys = [None] * length
    order = range(length - 1, -1, -1) if p['reverse'] else range(length)
    carry = list(carry)
    for it in order:
      out = yield from plan.run(
          cs, list(consts) + carry + [x[it] for x in xs], here + (it,))
      carry = list(out[:ncar])
      ys[it] = out[ncar:]
    nys = len(e.outvars) - ncar
    if length == 0:
      stacked = [jnp.zeros(v.aval.shape, v.aval.dtype)
                 for v in e.outvars[ncar:]]
    else:
      stacked = [jnp.stack([jnp.asarray(y[k]) for y in ys])
                 for k in range(nys)]
    return carry + stacked


_plan_memo = {}


def plan_of(jaxpr):
  hit = _plan_memo.get(id(jaxpr))
  if hit is not None and hit.jaxpr is jaxpr:
    return hit
  p = Plan(jaxpr)
  if len(_plan_memo) > 5000:
    _plan_memo.clear()
    _special_memo.clear()
  _plan_memo[id(jaxpr)] = p
  return p


def plan_of_closed(closed):
  return plan_of(closed.jaxpr), list(closed.consts)
