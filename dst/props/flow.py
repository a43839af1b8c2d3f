"""C25: flows stepped on many devices, interrupted, and differentiated."""
import functools
import importlib
import inspect
import json
import types

import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from dst import intercept, spmd, spmdgen
from dst import plan as planlib
from dst.core import check
from dst.props import flowref, meshes

from swirl_fem.navier_stokes import navier_stokes as ns

KINDS = {'dirichlet': ns.BCType.DIRICHLET, 'neumann': ns.BCType.NEUMANN}
DRIVERS = {'own': None, 'train': 'swirl_fem.niles.train',
           'datagen': 'swirl_fem.niles.datagen.datagen'}


def gen_mesh(c):
  for _ in range(50):
    spec = meshes.gen_mesh(c, high_order=0.0, periodic=0.6)
    spec['parts'] = None
    spec['tidy'] = c.chance(0.8)
    if spec['ndim'] == 1 or spec.get('ties'):
      continue
    limit = 9 if spec['ndim'] == 2 else 8
    pm = meshes.premesh_of(spec)
    if len(pm.elements) > limit or not whole(pm):
      continue
    return spec
  return dict(ndim=2, n=2, a=0.0, b=2.0, periodic=[0, 1], order=1,
              nodes='newton_cotes', distort=None, scramble=None, group=None,
              turn=None, shape=None, parts=None, x64=True)


def whole(pm):
  """No element touches itself."""
  cls = meshes.node_classes(pm)
  return all(len(set(cls[e].tolist())) == len(e) for e in pm.elements)


def gen(prop, c, rng, tier):
  spec = gen_mesh(c)
  pm = meshes.premesh_of(spec)
  names = sorted(pm.physical_groups)
  style = c.choice(['walls', 'walls', 'some', 'mixed', 'free'])
  bc = {}
  for g in names:
    if style == 'walls':
      bc[g] = 'dirichlet'
    elif style == 'free':
      bc[g] = 'neumann'
    elif style == 'some' and g != 'boundary':
      bc[g] = c.choice(['dirichlet', 'neumann'])
    elif style == 'mixed' and c.chance(0.6):
      bc[g] = 'dirichlet' if g != 'boundary' else 'neumann'
  driver = c.weighted([('own', 6), ('train', 2), ('datagen', 1)])
  k = c.weighted([(1, 2), (2, 3), (3, 3)])
  order = c.weighted([(3, 4), (4, 2), (5, 1)]) if spec['ndim'] == 2 else 3
  inhom = bool(bc) and driver == 'own' and c.chance(0.4)
  if driver != 'own':
    k = max(k, 2)
    if spec['ndim'] > 2:
      driver = 'own'
  if driver == 'datagen':
    k = 3
  if driver != 'own':
    # these take it that nothing can leave
    bc = {g: 'dirichlet' for g in names}
    spec['tidy'] = True
  D = c.weighted([(1, 1), (2, 4), (3, 3), (4, 2)])
  T = c.weighted([(1, 2), (2, 3), (3, 3), (4, 1)])
  stops = []
  if T > 1 and c.chance(0.55):
    at = sorted({c.int(1, T - 1) for _ in range(c.int(1, 2))})
    stops = [[a, c.weighted([(D, 2), (1, 1), (c.int(1, 4), 2)]), c.chance(0.3)]
             for a in at]
  w = dict(mesh=spec, bc=bc, order=order, over=c.choice([2, 2, 2, 0, 1, 3]),
           driver=driver, k=k, D=D, M=c.int(max(1, D - 1), 2 * D), T=T,
           inhom=inhom, x64=c.chance(0.88) or driver != 'own', stops=stops,
           loop=c.chance(0.2), project=True,
           grad=driver == 'own' and not stops and c.chance(0.7),
           mu=rng.choice([1e-3, 0.02, 0.3, 2.0]), dt=rng.choice([2e-3, 0.01, 0.06]),
           alpha=rng.choice([0.0, 0.05, 0.05, 0.3]), drag=rng.choice([0.0, 0.1, 1.0]) * (10 if driver == 'datagen' else 1),
           data=rng.getrandbits(30), layout=rng.choice(['block', 'cyclic']))
  if not w['x64']:
    w['grad'] = False
  devs = max([D] + [s[1] for s in stops])
  n = len(stops) + 2
  faults = spmdgen.network_faults(rng, devs, dispatches=n, msgs=8 * devs, colls=4)
  if rng.chance(0.35):
    faults += spmdgen.crash_faults(rng, devs, dispatches=n, colls=3)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


# -- what is simulated ---------------------------------------------------------------
def key_of(w):
  return json.dumps([w['mesh'], w['bc'], w['order'], w['over'], w['x64']],
                    sort_keys=True)


@functools.lru_cache(maxsize=24)
def solver(key):
  spec, bc, order, over, _ = json.loads(key)
  return ns.StokesSEM.create(
      meshes.premesh_of(spec), {g: (KINDS[v], 0.0) for g, v in bc.items()},
      order=order, num_convection_overint_nodes=over)


@functools.lru_cache(maxsize=24)
def truth(key):
  spec, bc, order, over, _ = json.loads(key)
  walls = sorted(g for g, v in bc.items() if v == 'dirichlet')
  return flowref.Flow(meshes.premesh_of(spec), order, walls, over)


# private, and what they are taken to be called with
SIGNATURES = {'train': ('us', 'ps', 'cus', 'f', 'sem', 'config'),
              'datagen': ('sem', 'us', 'ps', 'cus')}


def known(driver):
  """Is the step of this driver still where and what it was?"""
  if driver == 'own':
    return True
  fn = getattr(importlib.import_module(DRIVERS[driver]), '_solve_one_step', None)
  return fn is not None and tuple(
      n.lower() for n in inspect.signature(fn).parameters) == SIGNATURES[driver]


@functools.lru_cache(maxsize=40)
def program(key, driver, k, steps, first, inhom, project, loop, grad, D):
  sem = solver(key)
  tol = 1e-9 if json.loads(key)[-1] else 1e-5
  ext = flowref.EXT[k]

  def one(us, ps, cus, amp, g, ub, par):
    mu, dt, alpha, drag = par['mu'], par['dt'], par['alpha'], par['drag']
    if driver == 'own':
      cu = sum(c * x for c, x in zip(ext, cus))
      f = sem.B(amp * g - drag * us[-1]) - cu
      u, p, _ = sem.stokes_one_step(
          us, ps, f, mu=mu, dt=dt, time_order=k, alpha=alpha, u_boundary=ub,
          project_out_nullspace=project, tol=tol)
      return u, p, sem.C(u)
    if driver == 'train':
      from swirl_fem.niles import train  # pylint: disable=g-import-not-at-top
      config = types.SimpleNamespace(
          time_order=k, drag_coeff=drag, reynolds_number=1 / mu, dt=dt,
          alpha=alpha)
      return train._solve_one_step(us, ps, cus, amp * g, sem, config)
    from swirl_fem.niles.datagen import datagen  # pylint: disable=g-import-not-at-top
    kept = {n: getattr(datagen, n) for n in (
        'TIME_ORDER', 'REYNOLDS_NUMBER', 'DT', 'DRAG_COEFF')}
    try:
      datagen.TIME_ORDER, datagen.REYNOLDS_NUMBER = k, 1 / mu
      datagen.DT, datagen.DRAG_COEFF = dt, drag
      return datagen._solve_one_step(sem, us, ps, cus)
    finally:
      for n, v in kept.items():
        setattr(datagen, n, v)

  def member(a, par):
    us, ps, amp, g, ub, wu, wp, old = a
    cus = jax.vmap(sem.C)(us) if first else old
    split = lambda x: tuple(x[i] for i in range(len(x)))

    def step(carry, amp):
      us, ps, cus = carry
      u, p, cu = one(us, ps, cus, amp, g, ub if inhom else None, par)
      return (us[1:] + (u,), ps[1:] + (p,), cus[1:] + (cu,)), (u, p)
    (us, ps, cus), out = lax.scan(step, (split(us), split(ps), split(cus)), amp)
    value = jnp.sum(wu * us[-1]) + jnp.sum(wp * ps[-1])
    vort = sem.vorticity(us[-1]) if us[-1].shape[-1] == 2 else ()
    stack = lambda x: jnp.stack(x)
    return value, (out, (stack(us), stack(ps), stack(cus)), vort)

  def body(args, valid, par):
    def total(var, par):
      a = (*var[:2], args[2], *var[2:], *args[5:])
      if loop:
        v, aux = lax.map(lambda x: member(x, par), a)
      else:
        v, aux = jax.vmap(lambda *x: member(x, par))(*a)
      return jnp.sum(jnp.where(valid, v, 0)), aux
    var = (args[0], args[1], args[3], args[4])
    if grad:
      (v, aux), (gv, gp) = jax.value_and_grad(
          total, argnums=(0, 1), has_aux=True)(var, par)
    else:
      v, aux = total(var, par)
      gv = gp = ()
    v, gp, count = lax.psum((v, gp, jnp.sum(valid)), 'i')
    mean = lambda x: jax.tree_util.tree_map(lambda y: y / count, x)
    return aux, gv, mean(v), mean(gp), count

  return jax.pmap(body, axis_name='i', in_axes=(0, 0, None))


def place(M, D, layout):
  """[D, m] member numbers, -1 where a slot is empty."""
  m = -(-M // D)
  a = np.full(D * m, -1)
  a[:M] = np.arange(M)
  return a.reshape(D, m) if layout == 'block' else a.reshape(m, D).T.copy()


def smooth(r, ref, shape):
  """[*shape, classes]: random fields, a little rough."""
  x = ref.first
  out = 0.15 * r.normal(size=shape + (len(x),))
  for _ in range(3):
    q = r.normal(size=x.shape[1]) * 2
    out += r.normal(size=shape)[..., None] * np.sin(x @ q + r.uniform(0, 6))
  return out


def data(w, ref):
  """Histories, forces and weights of every member, per class of nodes."""
  r = np.random.RandomState(w['data'])
  M, k, d = w['M'], w['k'], ref.ndim
  size = 10.0 if w['driver'] == 'datagen' else 1.0
  last = lambda a: np.moveaxis(a, -2, -1)
  base = smooth(r, ref, (M, 1, d))
  us = last(base + 0.3 * smooth(r, ref, (M, k, d))) * size   # [M, k, N, d]
  ps = r.normal(size=(M, max(2, k), ref.np)) * size
  ps = ps[:, :1] + 0.2 * ps
  g = last(smooth(r, ref, (M, d)))
  amp = r.normal(size=(M, w['T']))
  ub = last(smooth(r, ref, (M, d)))
  if ref.closed:
    ub = np.stack([ref.tight(x) for x in ub])
  wu = r.normal(size=(M, ref.N, d))
  wp = 0.1 * w['dt'] * r.normal(size=(M, ref.np))
  wp -= wp.mean(axis=1, keepdims=True)
  if not determined(ref):
    wp[:] = 0
  return us, ps, amp, g, ub, wu, wp


def determined(ref):
  """Is the pressure, at most up to a constant?"""
  return ref.nullity == int(ref.closed) and ref.spread < 1e6


def history(w, ref, us, ps, amp, g, ub, par):
  """The flow of one member: lists of velocities and pressures."""
  us, ps = list(us), list(ps)
  cus = [ref.convect(u) for u in us]
  ext = flowref.EXT[w['k']]
  out = []
  for t in range(w['T']):
    f = (amp[t] * g if w['driver'] != 'datagen' else 0) - par['drag'] * us[-1]
    f = f[ref.cls]
    if w['driver'] != 'own':
      f = f.copy()
      f[:, 0] += np.sin(8 * np.pi * ref.coords[:, 1])
    f = ref.load(f) - sum(c * x for c, x in zip(ext, cus))
    u, p = ref.step(us, ps, f, par['mu'], par['dt'], w['k'], par['alpha'],
                    ub if w['inhom'] else None, w['project'])
    us, ps, cus = us[1:] + [u], ps[1:] + [p], cus[1:] + [ref.convect(u)]
    out.append((u, p))
  return out


# -- one job ---------------------------------------------------------------------------
def run(prop, ctx):
  w = ctx.w
  key = key_of(w)
  f = np.float64 if w['x64'] else np.float32
  ref, sem = truth(key), solver(key)
  if not known(w['driver']):
    ctx.stats.probe('driver_unknown')
    w['driver'] = 'own'
  w = dict(w, project=ref.closed and (w['project'] or w['driver'] != 'own'))
  ctx.stats.event('mesh', key)
  vel = ref.find(sem.velocity.mesh.node_coords, 'velocity')
  prs = ref.find(sem.pressure.pspace.mesh.node_coords, 'pressure')
  M, k, T = w['M'], w['k'], w['T']
  us, ps, amp, g, ub, wu, wp = data(w, ref)
  # weights are those of classes: of several copies one is looked at
  once = np.zeros(len(vel))
  once[np.unique(vel, return_index=True)[1]] = 1
  here = [us[:, :, vel], ps[:, :, prs], amp, g[:, vel], ub[:, vel],
          wu[:, vel] * once[:, None], wp[:, prs]]
  here = [x.astype(f) for x in here]
  par = {n: f(w[n]) for n in ('mu', 'dt', 'alpha', 'drag')}
  if w['driver'] == 'datagen':
    par['alpha'] = f(0.05)            # not for the caller to choose
  state = (here[0], here[1], np.zeros_like(here[0]))
  got_u = np.zeros((M, T, len(vel), ref.ndim))
  got_p = np.zeros((M, T, len(prs)))
  sim = spmd.Sim(ctx)
  starts = [[0, w['D'], True]] + w['stops']
  for i, (a, D, first) in enumerate(starts):
    b = starts[i + 1][0] if i + 1 < len(starts) else T
    at = place(M, D, w['layout'])
    valid = at >= 0
    # an empty slot must not matter
    take = lambda x: x[np.where(valid, at, 0)] * np.where(
        valid, 1, -0.5).astype(f).reshape(valid.shape + (1,) * (x.ndim - 1))
    args = [state[0], state[1], here[2][:, a:b], *here[3:], state[2]]
    grad = w['grad'] and len(starts) == 1
    with intercept.active(sim):
      fn = program(key, w['driver'], k, b - a, first, w['inhom'], w['project'],
                   w['loop'], grad, D)
      out = spmdgen.with_retries(
          lambda: fn([jnp.asarray(take(x)) for x in args], jnp.asarray(valid), par),
          ctx.stats)
    (ys, state, vort), gv, mean, gp, count = jax.tree_util.tree_map(
        np.asarray, out)
    for name, x in [('mean', mean)] + sorted(gp.items() if gp else []):
      check(all(v.tobytes() == x[0].tobytes() for v in x), 'divergence',
            f'devices hold different values of {name}')
    check((count == M).all(), 'count', lambda: f'{count} members of {M}')
    for x in (*ys, *state):
      check(x.dtype == f, 'dtype', lambda: f'a field became {x.dtype}')

    def back(x):
      y = np.zeros((M,) + x.shape[2:], x.dtype)
      y[at[valid]] = x[valid]
      return y
    state = tuple(back(x) for x in state)
    got_u[:, a:b], got_p[:, a:b] = back(ys[0]), back(ys[1])
    if i:
      ctx.stats.probe('continued')
      if D != starts[i - 1][1]:
        ctx.stats.probe('other_device_count')
      if first:
        ctx.stats.probe('advection_recomputed')
  compare(ctx, w, ref, vel, prs, (us, ps, amp, g, ub), par, got_u, got_p,
          back(vort) if ref.ndim == 2 else None)
  if w['grad']:
    gradients(ctx, w, ref, vel, prs, (us, ps, amp, g, ub, wu, wp), par,
              [back(x) for x in gv], {n: x[0] for n, x in gp.items()}, mean[0])
  for name, yes in (('closed', ref.closed), ('periodic', bool(w['mesh']['periodic'])),
                    ('walls', not ref.free.all()), ('moving_walls', w['inhom']),
                    ('driver_' + w['driver'], True), (f'order_{w["order"]}', True),
                    (f'time_order_{k}', True), (f'{ref.ndim}d', True),
                    ('pressure_not_unique', not determined(ref))):
    if yes:
      ctx.stats.probe(name)
  ctx.stats.count('steps', M * T)
  ctx.nontrivial = w['D'] > 1 or bool(w['stops'])


def bounds(w):
  """Of velocities and of pressures, relative."""
  if not w['x64']:
    return 1e-2, 5e-2
  return {'own': (5e-6, 5e-5), 'train': (2e-5, 5e-4),
          'datagen': (2e-3, 2e-2)}[w['driver']]


def compare(ctx, w, ref, vel, prs, start, par, got_u, got_p, vort):
  tu, tp = bounds(w)
  par = {n: float(x) for n, x in par.items()}
  for m in range(w['M']):
    want = history(w, ref, *(x[m] for x in start), par)
    for t, (u, p) in enumerate(want):
      size = np.abs(u).max() + np.abs(start[0][m]).max()
      err = np.abs(got_u[m, t] - u[vel]).max(axis=-1)
      check(np.isfinite(err).all() and err.max() <= tu * size, 'velocity', lambda: (
          f'flow {m} after step {t + 1}: at {ref.first[vel[err.argmax()]].tolist()} '
          f'the velocity is {got_u[m, t, err.argmax()].tolist()}, should be '
          f'{u[vel[err.argmax()]].tolist()}'))
      x = np.zeros((ref.N, ref.ndim))
      x[vel] = got_u[m, t]
      free = np.abs(ref.div(x)).max()
      scale = (np.abs(ref.D).sum(axis=(0, 2)).max()) * size
      check(free <= tu * scale, 'divergence_free', lambda: (
          f'flow {m} after step {t + 1} has divergence {free}'))
      if not determined(ref):
        continue
      q = np.zeros(ref.np)
      q[prs] = got_p[m, t]
      if ref.closed and not w['project']:
        q, p = ref.center @ q, ref.center @ p
      psize = np.abs(p).max() + np.abs(start[1][m]).max()
      perr = np.abs(q - p)
      check(perr.max() <= tp * psize, 'pressure', lambda: (
          f'flow {m} after step {t + 1}: at {ref.pcoords[perr.argmax()].tolist()} '
          f'the pressure is {q[perr.argmax()]}, should be {p[perr.argmax()]}'))
      ctx.stats.count('pressures')
    if vort is not None:
      v = ref.vorticity(want[-1][0])
      e = np.abs(vort[m] - v[vel])
      # summed per copy, averaged per copy
      inner = np.bincount(vel, minlength=ref.N)[vel] == 1
      e = e[inner]
      check(not e.size or e.max() <= 100 * tu * (1 + np.abs(v).max()), 'vorticity',
            lambda: f'flow {m}: the vorticity is off by {e.max()}, at most '
            f'{np.abs(v).max()} anywhere')


def gradients(ctx, w, ref, vel, prs, start, par, gv, gp, mean):
  """One direction, by a step into the complex numbers."""
  r = np.random.RandomState(w['data'] + 7)
  us, ps, amp, g, ub, wu, wp = start
  par = {n: float(x) for n, x in par.items()}
  M = w['M']
  dirs = [r.normal(size=x.shape) for x in (us, ps, g, ub)]
  if not w['inhom']:
    dirs[3][:] = 0
  if ref.closed:
    # walls whose net flow is not zero have no solution
    dirs[3][:] = 0
  names = sorted(par)
  for which in ('fields', 'numbers'):
    h = 1e-30j
    total, value, got, size = 0.0, 0.0, 0.0, 0.0
    q = dict(par)
    dpar = {n: 0.0 for n in names}
    if which == 'numbers':
      dpar = {n: par[n] * r.normal() + (n in ('alpha', 'drag')) * r.normal()
              for n in names}
      q = {n: par[n] + h * dpar[n] for n in names}
    for m in range(M):
      a = [x[m] for x in (us, ps, amp, g, ub)]
      if which == 'fields':
        for i, dx in zip((0, 1, 3, 4), dirs):
          a[i] = a[i] + h * dx[m]
      u, p = history(w, ref, *a, q)[-1]
      v = (wu[m] * u).sum() + (wp[m] * p).sum()
      total += v.imag / 1e-30
      value += v.real
    if which == 'fields':
      here = (dirs[0][:, :, vel], dirs[1][:, :, prs], dirs[2][:, vel],
              dirs[3][:, vel])
      for x, dx in zip(gv, here):
        got += (x * dx).sum()
        size += np.abs(x * dx).sum()
    else:
      for n in names:
        got += M * float(gp[n]) * dpar[n]
        size += abs(M * float(gp[n]) * dpar[n])
    check(np.isfinite(got) and abs(got - total) <= 1e-5 * (
        size + abs(total)) + 1e-7 * M, 'gradient', lambda: (
            f'along a direction in {which} the loss grows by {got}, should by '
            f'{total}'))
    ctx.stats.count('gradients')
  check(abs(mean - value / M) <= 1e-6 * (np.abs(wu).sum() / M * (
      np.abs(us).max() + 1)), 'mean', lambda: (
          f'the mean over all members is {mean}, should be {value / M}'))
  ctx.stats.probe('gradient')


def shrink(w):
  if w['grad']:
    yield {**w, 'grad': False}
  for i in range(len(w['stops'])):
    yield {**w, 'stops': w['stops'][:i] + w['stops'][i + 1:]}
  for n, small in (('loop', False), ('inhom', False), ('layout', 'block'),
                   ('alpha', 0.0), ('drag', 0.0), ('over', 2), ('k', 1), ('k', 2)):
    if w[n] != small and not (n == 'k' and (small > w[n] or w['driver'] != 'own')):
      yield {**w, n: small}
  if w['T'] > 1 and not w['stops']:
    yield {**w, 'T': 1}
    yield {**w, 'T': w['T'] - 1}
  if w['M'] > 1:
    yield {**w, 'M': 1}
    yield {**w, 'M': w['M'] // 2}
  if w['D'] > 1:
    yield {**w, 'D': w['D'] - 1}
  if w['order'] > 3:
    yield {**w, 'order': 3}
  for spec in meshes.shrink(w['mesh']):
    pm = meshes.premesh_of(spec)
    if set(w['bc']) <= set(pm.physical_groups) and whole(pm):
      yield {**w, 'mesh': spec}
