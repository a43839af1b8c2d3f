"""Puts jax.jit and jax.pmap behind a seam the simulator owns.

`install()` must run before swirl_fem is imported. Outside a simulation, or
while tracing, the wrappers are the real thing.
"""
import functools
import threading

import jax
import jax.numpy as jnp
import numpy as np

from dst import plan as planlib
from dst.core import HarnessError

_tls = threading.local()


def current():
  return getattr(_tls, 'sim', None)


class active:
  """Context manager: jit/pmap calls in this thread go to `sim`."""

  def __init__(self, sim):
    self.sim = sim

  def __enter__(self):
    self.old = current()
    _tls.sim = self.sim
    return self.sim

  def __exit__(self, *a):
    _tls.sim = self.old


def _tracing(leaves):
  return (any(isinstance(x, jax.core.Tracer) for x in leaves)
          or not jax.core.trace_state_clean())


class SimJit:
  """jax.jit(f) that runs SPMD programs on the simulated devices."""

  def __init__(self, fun, real):
    self._real = real
    self._plans = {}
    try:
      functools.update_wrapper(self, fun)
    except AttributeError:
      pass

  def __getattr__(self, name):
    return getattr(self._real, name)

  def __get__(self, obj, objtype=None):
    return self if obj is None else functools.partial(self, obj)

  def __call__(self, *args, **kwargs):
    sim = current()
    if sim is None or _tracing(jax.tree_util.tree_leaves((args, kwargs))):
      return self._real(*args, **kwargs)
    traced = self._real.trace(*args, **kwargs)
    closed = traced.jaxpr
    hit = self._plans.get(id(closed))
    if hit is None or hit[0] is not closed:
      special = planlib.has_special(closed.jaxpr)
      hit = (closed, planlib.plan_of(closed.jaxpr) if special else None)
      self._plans[id(closed)] = hit
    if hit[1] is None:
      return self._real(*args, **kwargs)
    flat = list(traced._args_flat)
    if len(flat) != len(closed.in_avals):
      raise HarnessError('cannot match arguments of a traced program')
    flat = [np.asarray(x, dtype=a.dtype) for x, a in zip(flat, closed.in_avals)]
    outs = sim.run_host_program(hit[1], list(closed.consts), flat)
    return jax.tree_util.tree_unflatten(
        traced._out_tree, [jnp.asarray(o) for o in outs])


class SimPmap:
  """jax.pmap(f) on the simulated devices."""

  def __init__(self, fun, real, axis_name, kw):
    self._fun, self._real, self._kw = fun, real, kw
    self._axis = axis_name
    self._cache = {}
    try:
      functools.update_wrapper(self, fun)
    except AttributeError:
      pass

  def __getattr__(self, name):
    return getattr(self._real, name)

  def __call__(self, *args, **kwargs):
    sim = current()
    leaves = jax.tree_util.tree_leaves((args, kwargs))
    if sim is None or _tracing(leaves):
      return self._real(*args, **kwargs)
    kw = dict(self._kw)
    static = kw.pop('static_broadcasted_argnums', ())
    static = (static,) if isinstance(static, int) else tuple(static)
    in_axes = kw.pop('in_axes', 0)
    out_axes = kw.pop('out_axes', 0)
    if out_axes != 0:
      raise HarnessError('pmap out_axes')
    dyn = [a for i, a in enumerate(args) if i not in static]
    axes = (in_axes if isinstance(in_axes, (tuple, list))
            else [in_axes] * len(args))
    axes = [a for i, a in enumerate(axes) if i not in static]
    for a in axes:
      if a not in (0, None):
        raise HarnessError(f'pmap in_axes {in_axes}')
    statics = {i: args[i] for i in static}
    nargs = len(args)

    flat, mapped, treedefs = [], [], []
    for a, ax in zip(dyn, axes):
      l, td = jax.tree_util.tree_flatten(a)
      flat += [np.asarray(x) for x in l]
      mapped += [ax == 0] * len(l)
      treedefs.append((td, len(l)))
    kl, ktd = jax.tree_util.tree_flatten(kwargs)
    flat += [np.asarray(x) for x in kl]
    mapped += [True] * len(kl)
    sizes = {x.shape[0] for x, m in zip(flat, mapped) if m}
    if len(sizes) != 1:
      raise ValueError(f'pmap got inconsistent sizes for array axes: {sizes}')
    local = sizes.pop()
    total, first = sim.pmap_extent(local)

    def call(*leaves):
      pos, k = [], 0
      for td, n in treedefs:
        pos.append(jax.tree_util.tree_unflatten(td, leaves[k:k + n]))
        k += n
      kws = jax.tree_util.tree_unflatten(ktd, leaves[k:])
      it = iter(pos)
      full = [statics[i] if i in statics else next(it) for i in range(nargs)]
      return self._fun(*full, **kws)

    slices = [x[0] if m else x for x, m in zip(flat, mapped)]
    key = (total, jax.config.jax_enable_x64, tuple(td for td, _ in treedefs), ktd, tuple(mapped),
           tuple((s.shape, str(s.dtype)) for s in slices),
           tuple(sorted((i, repr(v)) for i, v in statics.items())))
    try:
      hit = self._cache.get(key)
    except (TypeError, ValueError):   # aux data that cannot be compared
      hit, key = None, None
    if hit is None:
      env = [(self._axis, total)] if self._axis is not None else []
      tree = {}

      def flat_call(*leaves):
        out = call(*leaves)
        l, tree['out'] = jax.tree_util.tree_flatten(out)
        return l

      sim_state = current()
      with active(None):
        closed = jax.make_jaxpr(flat_call, axis_env=env)(*slices)
      del sim_state
      hit = (planlib.plan_of(closed.jaxpr), list(closed.consts), tree['out'],
             closed)
      if key is not None:
        self._cache[key] = hit
    plan, consts, out_tree, closed = hit
    per_dev = [[(x[i] if m else x) for x, m in zip(flat, mapped)]
               for i in range(local)]
    per_dev = [[np.asarray(v, dtype=a.dtype)
                for v, a in zip(vals, closed.in_avals)] for vals in per_dev]
    outs = sim.run_pmap(self._axis, total, first, local, plan, consts, per_dev,
                        closed)
    stacked = [jnp.asarray(np.stack([np.asarray(o[k]) for o in outs]))
               for k in range(len(outs[0]))]
    out = jax.tree_util.tree_unflatten(out_tree, stacked)
    if hasattr(sim, 'observe'):
      sim.observe(self._fun, args, kwargs, out)
    return out


def sim_jit(fun=None, **kw):
  if fun is None:
    return functools.partial(sim_jit, **kw)
  return SimJit(fun, planlib.REAL_JIT(fun, **kw))


def sim_pmap(fun=None, axis_name=None, **kw):
  if fun is None:
    return functools.partial(sim_pmap, axis_name=axis_name, **kw)
  try:
    real = planlib.REAL_PMAP(fun, axis_name, **kw)
  except Exception as e:  # e.g. bad in_axes: the caller must see it
    raise e
  return SimPmap(fun, real, axis_name, kw)


def install():
  jax.jit = sim_jit
  jax.pmap = sim_pmap
