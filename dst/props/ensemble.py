"""C24: ensembles of stochastic paths, spread over devices and interrupted."""
import functools

import flax.linen as nn
import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from dst import intercept, spmd, spmdgen
from dst import plan as planlib
from dst.core import check

from swirl_fem.sde.flax_nn_sde import nn_sdeint
from swirl_fem.sde.sdeint import brownian_path, sdeint

# state components and noise components of every system
SYSTEMS = {'scalar': (1, 1), 'diagonal': (3, 3), 'shared': (2, 1), 'tree': (3, 3),
           'network': (3, 3)}


def gen(prop, c, rng, tier):
  D = c.weighted([(1, 1), (2, 4), (3, 3), (4, 3), (6, 1)])
  k = c.weighted([(1, 2), (2, 4), (3, 3), (4, 2)])
  system = c.choice(sorted(SYSTEMS))
  w = dict(system=system, D=D, M=c.int(max(1, D - 1), 3 * D), k=k,
           per=c.choice([8, 12, 16, 32, 48]), x64=c.chance(0.7),
           # how many of all segments of the unit interval come before and after
           before=c.choice([0, 0, 1]), after=c.choice([0, 0, 2]),
           closed=c.chance(0.4), grad=c.chance(0.55), loop=c.chance(0.3),
           # where a process stops, and how many devices the next one has
           stops=[], scale=rng.choice([0.1, 0.3, 0.3, 0.0]),
           uneven=rng.chance(0.25),
           data=rng.getrandbits(30), layout=rng.choice(['block', 'cyclic']))
  if system == 'network':
    w['closed'] = False
  if k > 1 and c.chance(0.7):
    at = sorted({c.int(1, k - 1) for _ in range(c.int(1, 2))})
    w['stops'] = [[a, c.weighted([(D, 2), (1, 1), (c.int(1, 5), 2)])] for a in at]
  n = len(w['stops']) + 2
  devs = max([D] + [d for _, d in w['stops']])
  faults = spmdgen.network_faults(rng, devs, dispatches=n, msgs=8 * devs, colls=4)
  if rng.chance(0.35):
    faults += spmdgen.crash_faults(rng, devs, dispatches=n, colls=3)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


# -- the equations ---------------------------------------------------------------
class Net(nn.Module):
  """A small drift and diffusion network."""

  @nn.compact
  def __call__(self, y, t, dw):
    h = jnp.concatenate([y, jnp.reshape(t, (1,)).astype(y.dtype)])
    h = jnp.tanh(nn.Dense(4, name='a')(h))
    return (nn.Dense(3, name='b')(h),
            jnp.tanh(nn.Dense(3, name='c')(y)) * dw)


class NetPath(nn.Module):
  @nn.compact
  def __call__(self, y, ts, dw):
    return nn_sdeint(Net)(name='net')(y, ts, dw)


def field(system, xp):
  """(y, t, dw, theta) -> (drift, diffusion) on flat states [..., ncomp]."""
  if system == 'scalar':
    def f(y, t, dw, th):
      return (th['a'] * y + th['b'] * xp.sin(3 * t),
              th['s'] * (y + th['c']) * (1 + 0.5 * xp.sin(4 * t)) * dw)
  elif system == 'diagonal':
    def f(y, t, dw, th):
      return (xp.tanh(y) @ th['a'] + th['b'] * t, th['s'] * y * dw)
  elif system == 'shared':
    def f(y, t, dw, th):
      return (y @ th['a'] - th['b'] * y * y * y, th['s'] * y * dw)
  elif system == 'tree':
    # x in two components, v in one
    def f(y, t, dw, th):
      x, v = y[..., :2], y[..., 2:]
      return (xp.concatenate([v * th['a'], -th['b'] * xp.sum(
          x, axis=-1, keepdims=True) - v], axis=-1),
              xp.concatenate([th['s'] * x * dw[..., :2],
                              th['c'] * (1 - t) * dw[..., 2:]], axis=-1))
  else:
    def f(y, t, dw, th):
      th = th['params']['net']
      t = xp.broadcast_to(xp.asarray(t, y.dtype), y.shape[:-1] + (1,))
      h = xp.tanh(xp.concatenate([y, t], axis=-1) @ th['a']['kernel']
                  + th['a']['bias'])
      return (h @ th['b']['kernel'] + th['b']['bias'],
              xp.tanh(y @ th['c']['kernel'] + th['c']['bias']) * dw)
  return f


def parameters(w):
  r = np.random.RandomState(w['data'])
  s = w['scale']
  u = lambda *shape: r.uniform(-1, 1, size=shape)
  if w['system'] == 'scalar':
    th = dict(a=u(), b=u(), c=u(), s=s * (1 + 0.3 * u()))
  elif w['system'] == 'diagonal':
    th = dict(a=u(3, 3), b=u(3), s=s * (1 + 0.3 * u(3)))
  elif w['system'] == 'shared':
    th = dict(a=0.7 * u(2, 2), b=0.2 * abs(u()), s=s * (1 + 0.3 * u()))
  elif w['system'] == 'tree':
    th = dict(a=u(2), b=u(), c=s * u(), s=s * (1 + 0.3 * u()))
  else:
    th = {'params': {'net': {
        'a': dict(kernel=0.5 * u(4, 4), bias=u(4)),
        'b': dict(kernel=u(4, 3), bias=u(3)),
        'c': dict(kernel=s * u(3, 3), bias=s * u(3))}}}
  f = np.float64 if w['x64'] else np.float32
  return jax.tree_util.tree_map(lambda a: np.asarray(a, f), th)


def path(system, closed):
  """The code under test: (y0, ts, dw, theta) -> states at ts[1:]."""
  if system == 'network':
    return lambda y, ts, dw, th: NetPath().apply(th, y, ts, dw)
  f = field(system, jnp)
  pack = unpack = lambda y: y
  if system == 'scalar':
    pack, unpack = lambda y: y[..., 0], lambda y: y[..., None]
  if system == 'tree':
    pack = lambda y: {'x': y[..., :2], 'v': y[..., 2]}
    unpack = lambda y: jnp.concatenate([y['x'], y['v'][..., None]], axis=-1)

  def g(y, t, dw, th):
    a, b = f(unpack(y), t, unpack_noise(dw), th)
    return pack(a), pack(b)
  unpack_noise = (lambda d: d[..., None]) if system == 'scalar' else lambda d: d

  def run(y, ts, dw, th):
    if system == 'scalar':
      dw = dw[..., 0]
    if closed:
      out = sdeint(lambda y, t, d: g(y, t, d, th), pack(y), ts, dw)
    else:
      out = sdeint(g, pack(y), ts, dw, th)
    return unpack(out)
  return run


def plain(system):
  """Euler-Heun written out, for its derivative."""
  f = field(system, jnp)

  def run(y, ts, dw, th):
    dw = dw.reshape((len(ts) - 1, -1) + dw.shape[1:])
    out = []
    for i in range(len(ts) - 1):
      dt = (ts[i + 1] - ts[i]) / dw.shape[1]

      def step(c, d):
        y, t = c
        a, b = f(y, t, d, th)
        _, b2 = f(y + b, t + dt, d, th)
        return (y + a * dt + 0.5 * (b + b2), t + dt), None
      (y, _), _ = lax.scan(step, (y, ts[i]), dw[i])
      out.append(y)
    return jnp.stack(out)
  return run


def reference(w, y, ts, dw, th):
  """Euler-Heun in numpy, all members at once: [k, M, ncomp]."""
  f = field(w['system'], np)
  y = y.astype(np.float64)
  th = jax.tree_util.tree_map(lambda a: a.astype(np.float64), th)
  out = []
  for i in range(len(ts) - 1):
    dt = (ts[i + 1] - ts[i]) / w['per']
    for j in range(w['per']):
      d = dw[:, i * w['per'] + j]
      t = ts[i] + j * dt
      a, b = f(y, t, d, th)
      _, b2 = f(y + b, t + dt, d, th)
      y = y + a * dt + 0.5 * (b + b2)
    out.append(y)
  return np.stack(out)


# -- what a device does ------------------------------------------------------------
def increments(keys, n, dtype):
  """[..., components] keys -> [n, components]."""
  return jnp.stack([brownian_path(k, n, dtype) for k in keys], axis=-1)


@functools.lru_cache(maxsize=60)
def program(kind, system, closed, loop, n, first, last, per, grad, dtype):
  run = path(system, closed) if kind != 'plain' else plain(system)

  def member(y, key, weight, ts, th):
    dw = increments(key, n, dtype)
    ys = run(y, ts, dw[first * per:last * per], th)
    return jnp.sum(ys * weight), (ys, dw)

  def body(y, keys, weight, valid, ts, th):
    def total(y, th):
      m = lambda a: member(*a, ts, th)
      if loop:
        v, aux = lax.map(m, (y, keys, weight))
      else:
        v, aux = jax.vmap(lambda *a: m(a))(y, keys, weight)
      return jnp.sum(jnp.where(valid, v, 0)), aux
    if not grad:
      v, (ys, dw) = total(y, th)
      gy = gth = ()
    else:
      (v, (ys, dw)), (gy, gth) = jax.value_and_grad(
          total, argnums=(0, 1), has_aux=True)(y, th)
    if kind == 'devices':
      count = lax.psum(jnp.sum(valid), 'i')
      v, gth = lax.psum((v, gth), 'i')
    else:
      count = jnp.sum(valid)
    mean = lambda a: a / count
    return ys, dw, gy, mean(v), jax.tree_util.tree_map(mean, gth), count

  if kind == 'devices':
    return jax.pmap(body, axis_name='i', in_axes=(0, 0, 0, 0, None, None))
  return planlib.REAL_JIT(body)


def place(M, D, layout):
  """[D, m] member numbers, -1 where a slot is empty."""
  m = -(-M // D)
  a = np.full(D * m, -1)
  a[:M] = np.arange(M)
  return a.reshape(D, m) if layout == 'block' else a.reshape(m, D).T.copy()


# -- one job -------------------------------------------------------------------------
def run(prop, ctx):
  w = ctx.w
  ncomp, nnoise = SYSTEMS[w['system']]
  f = np.float64 if w['x64'] else np.float32
  M, k, per = w['M'], w['k'], w['per']
  r = np.random.RandomState(w['data'] + 1)
  y0 = r.uniform(0.5, 1.5, size=(M, ncomp)).astype(f)
  weight = r.normal(size=(M, k, ncomp)).astype(f)
  th = parameters(w)
  nseg = w['before'] + k + w['after']
  n = nseg * per
  ts = np.arange(w['before'], w['before'] + k + 1) / nseg
  if w['uneven']:
    ts = ts + np.append(0., r.uniform(-0.3, 0.3, size=k)) / nseg
  ts = ts.astype(f)
  keys = np.asarray(jax.random.split(
      jax.random.PRNGKey(w['data'] % 2**31), M * nnoise)).reshape(M, nnoise, 2)
  tol = 1e-9 if w['x64'] else 3e-4
  got = np.zeros((k, M, ncomp))
  noise = None
  saved = y0                 # what a killed process leaves behind
  sim = spmd.Sim(ctx)
  starts = [[0, w['D']]] + w['stops']
  for i, (a, D) in enumerate(starts):
    b = starts[i + 1][0] if i + 1 < len(starts) else k
    at = place(M, D, w['layout'])
    valid = at >= 0
    take = lambda x: x[np.where(valid, at, 0)]
    # an empty slot must not matter
    y_in = np.where(valid[..., None], take(saved), 7.0).astype(f)
    grad = w['grad'] and a == 0 and b == k
    with intercept.active(sim):
      fn = program('devices', w['system'], w['closed'], w['loop'], n,
                   w['before'] + a, w['before'] + b, per, grad, np.dtype(f).name)
      out = spmdgen.with_retries(
          lambda: fn(jnp.asarray(y_in), jnp.asarray(take(keys)),
                     jnp.asarray(take(weight)[:, :, a:b]), jnp.asarray(valid),
                     jnp.asarray(ts[a:b + 1]), th), ctx.stats)
    ys, dw, gy, mean, gth, count = jax.tree_util.tree_map(np.asarray, out)
    check(ys.shape == valid.shape + (b - a, ncomp), 'shape',
          lambda: f'paths have shape {ys.shape}')
    check(ys.dtype == f and dw.dtype == f, 'dtype',
          lambda: f'paths of type {ys.dtype} from increments of type {dw.dtype}')
    for name, x in [('mean', mean)] + [
        ('gradient', l) for l in jax.tree_util.tree_leaves(gth)]:
      check(all(v.tobytes() == x[0].tobytes() for v in x), 'divergence',
            f'devices hold different {name}s')
    check((count == M).all(), 'count', lambda: f'{count} members of {M}')
    mine = np.zeros((M, n, nnoise), f)
    mine[at[valid]] = dw[valid]
    if noise is None:
      noise = mine
    check(np.allclose(mine, noise, rtol=1e-5, atol=1e-7), 'increments',
          'the increments of a member changed after a restart')
    part = np.zeros((M, b - a, ncomp), f)
    part[at[valid]] = ys[valid]
    got[a:b] = part.transpose(1, 0, 2)
    saved = part[:, -1]
    if i:
      ctx.stats.probe('continued')
      if D != starts[i - 1][1]:
        ctx.stats.probe('other_device_count')
  # the increments of members and components are different and standard
  rows = noise.transpose(0, 2, 1).reshape(M * nnoise, n)
  check(len(np.unique(rows, axis=0)) == len(rows), 'increments',
        'two members have the same increments')
  num = rows.size
  v = float((rows.astype(np.float64) ** 2).mean() * n)
  check(abs(v - 1) <= 7 * np.sqrt(2 / num) + 1e-6, 'variance', lambda: (
      f'{num} increments have variance {v} / {n}'))
  mu = float(rows.astype(np.float64).mean() * np.sqrt(n))
  check(abs(mu) <= 7 / np.sqrt(num), 'variance', lambda: (
      f'{num} increments have mean {mu} deviations'))
  # every path
  lo, hi = w['before'] * per, (w['before'] + k) * per
  want = reference(w, y0, ts.astype(np.float64), noise[:, lo:hi].astype(
      np.float64), th)
  scale = 1 + np.abs(want).max()
  check(np.isfinite(got).all() and np.abs(got - want).max() <= tol * scale,
        'path', lambda: 'member %d at output %d is %s, its own increments give '
        '%s' % ((lambda p: (p[1], p[0], got[p[0], p[1]].tolist(),
                            want[p[0], p[1]].tolist()))(
            np.unravel_index(np.argmax(np.abs(got - want)), got.shape))))
  # values and gradients of the averaged loss
  if not w['stops']:
    loss = float((want.transpose(1, 0, 2) * weight).sum() / M)
    mag = np.abs(want.transpose(1, 0, 2) * weight).sum() / M + 1
    check(abs(mean[0] - loss) <= 10 * tol * mag, 'mean', lambda: (
        f'the mean over all members is {mean[0]}, should be {loss}'))
    if w['grad']:
      ctx.stats.probe('gradient')
      args = (y0, keys, weight, np.ones(M, bool), ts, th)
      here = np.zeros((M, ncomp))
      at = place(M, w['D'], w['layout'])
      here[at[at >= 0]] = gy[at >= 0]
      compare_gradients(ctx, w, n, args, here, jax.tree_util.tree_map(
          lambda x: x[0], gth), tol)
  ctx.nontrivial = w['D'] > 1 or bool(w['stops'])


def compare_gradients(ctx, w, n, args, gy, gth, tol):
  f = args[0].dtype.name
  flat = lambda gy, gth: [np.asarray(x, np.float64) for x in
                          [gy] + jax.tree_util.tree_leaves(gth)]

  def gradients(kind, refine):
    per = w['per'] * refine
    fn = program(kind, w['system'], w['closed'] and kind == 'alone', False,
                 n * refine, w['before'], w['before'] + w['k'], per, True, f)
    _, _, oy, _, oth, _ = fn(*args)
    return flat(oy, oth)
  mine, alone = flat(gy, gth), gradients('alone', 1)
  check([x.shape for x in mine] == [x.shape for x in alone], 'gradient',
        'gradients have other shapes')
  size = max(np.abs(y).max() for y in alone)
  for i, (x, y) in enumerate(zip(mine, alone)):
    err = np.abs(x - y).max()
    check(err <= 100 * tol * (1 + size), 'gradient', lambda: (
        f'gradient {i} is {x.ravel()[:4].tolist()}, in one process '
        f'{y.ravel()[:4].tolist()}'))
  ctx.stats.count('gradients', len(mine))
  # The gradient is that of the equation: what it differs by from that of the
  # scheme shrinks with the steps.  An odd path with few of them may still be
  # far off, a wrong gradient stays wrong.
  if distance(alone, gradients('plain', 1))[0] <= 0.01 + 1.0 / n:
    return
  ctx.stats.probe('refined')
  fine, want = gradients('alone', FINER), gradients('plain', FINER)
  worst, i = distance(fine, want)
  check(worst <= 0.02 + 2.0 / n / np.sqrt(FINER), 'gradient', lambda: (
      f'gradient {i} over {FINER * n} steps is {fine[i].ravel()[:4].tolist()}, '
      f'that of the path {want[i].ravel()[:4].tolist()}'))


FINER = 64


def distance(mine, other):
  every = max(np.abs(y).max() for y in other)
  return max((np.abs(x - y).max() / (np.abs(y).max() + 0.1 * every + 1e-3), i)
             for i, (x, y) in enumerate(zip(mine, other)))


def shrink(w):
  if w['grad']:
    yield {**w, 'grad': False}
  if w['stops']:
    for i in range(len(w['stops'])):
      yield {**w, 'stops': w['stops'][:i] + w['stops'][i + 1:]}
  for key, small in (('loop', False), ('uneven', False), ('closed', False), ('before', 0),
                     ('after', 0), ('layout', 'block'), ('system', 'scalar')):
    if w[key] != small:
      yield {**w, key: small}
  if w['M'] > 1:
    yield {**w, 'M': 1}
    yield {**w, 'M': w['M'] // 2}
  if w['D'] > 1:
    yield {**w, 'D': w['D'] - 1}
  if w['k'] > 1 and not w['stops']:
    yield {**w, 'k': 1}
