"""C05 (prefix scan) and C06 (all-reduce)."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental.shard_map import shard_map
from jax.sharding import PartitionSpec

from dst import intercept, spmd, spmdgen
from dst.core import check
from dst.props import router as rt

from swirl_fem.communication.jit_distributed import jit_distributed
from swirl_fem.communication.pscan import preduce, pscan

OPS = ['add', 'multiply', 'maximum', 'minimum', 'bitwise_and', 'bitwise_or',
       'bitwise_xor']
FLOATS = ['float32', 'float16', 'bfloat16', 'float64']
NARROW = ['float32', 'float16', 'bfloat16']
INTS = ['int32', 'uint32', 'int8', 'uint8', 'int16', 'uint16']


def dtypes_for(op, wide=False):
  more = []
  if wide:
    more = ['int64', 'uint64']
    if not op.startswith('bitwise'):
      more += ['float64', 'float64']
    if op in ('add', 'multiply'):
      more += ['complex128']
  return basic_dtypes(op) + 2 * more


def basic_dtypes(op):
  if op in ('add', 'multiply'):
    return ['float32'] * 3 + NARROW[1:] + INTS + ['int32', 'complex64']
  if op in ('maximum', 'minimum'):
    return ['float32'] * 4 + NARROW[1:] + INTS + ['int32']
  return INTS + ['int32', 'bool']


STYLES = ['small', 'extreme', 'random', 'inf', 'sparse', 'equal']
FORMS = ['jitdist', 'shard_map', 'pmap']


def data_for(seed, style, dtype, shape):
  r = np.random.RandomState(seed % (1 << 32))
  isf = dtype in FLOATS
  if dtype == 'bool':
    p = {'sparse': 0.1, 'equal': 1.0}.get(style, 0.6)
    return r.uniform(size=shape) < p
  if dtype == 'complex128':
    return r.normal(size=shape) + 1j * r.normal(size=shape)
  if dtype == 'complex64':
    a = r.randint(-3, 4, size=shape) + 1j * r.randint(-3, 4, size=shape)
    return a.astype(np.complex64)
  if isf:
    if style == 'random' and dtype in ('float32', 'float64'):
      return r.normal(size=shape).astype(dtype)
    if style == 'inf':
      a = r.randint(-2, 3, size=shape).astype(np.float32)
      m = r.uniform(size=shape)
      a = np.where(m < 0.25, np.inf, np.where(m < 0.5, -np.inf, a))
      if r.uniform() < 0.3:
        a = np.full(shape, -np.inf if r.uniform() < 0.5 else np.inf)
    elif style == 'extreme':
      big = {'float16': 6e4, 'float64': 1e308}.get(dtype, 3e38)
      a = r.choice([-big, big, 1.0, -1.0, 0.5], size=shape)
    else:
      a = r.choice([-2.0, -1.0, 0.5, 1.0, 1.0, 2.0, 3.0], size=shape)
      if style == 'sparse':
        a = np.where(r.uniform(size=shape) < 0.7, 1.0, a)
    if dtype == 'float64':
      return np.asarray(a, np.float64)
    return np.asarray(jnp.asarray(np.asarray(a, np.float32)).astype(dtype))
  info = np.iinfo(dtype)
  if style == 'extreme' or style == 'inf':
    a = np.array([info.min, info.max, info.min + 1, 1],
                 dtype)[r.randint(0, 4, size=shape)]
  elif style == 'random':
    raw = r.bytes(int(np.prod(shape)) * info.dtype.itemsize)
    a = np.frombuffer(raw, dtype).reshape(shape)
  elif style == 'equal':
    a = np.full(shape, r.randint(1, 100))
  else:
    a = r.randint(0, 6, size=shape) - (2 if info.min < 0 else 0)
  return a.astype(dtype)


def exact(op, style, dtype):
  """Is the combination independent of how it is associated?"""
  if op not in ('add', 'multiply') or dtype not in FLOATS + ['complex64',
                                                              'complex128']:
    return True
  return False


def gen_leaf(rng, op, wide):
  return dict(dtype=rng.choice(dtypes_for(op, wide)),
              shape=rng.weighted([([], 5), ([3], 3), ([2, 2], 2), ([1], 1),
                                  ([0], 0.3), ([5, 1, 2], 0.5)]),
              style=rng.choice(STYLES))


def gen(prop, cfg_rng, rng, tier):
  c = cfg_rng
  mesh = rt.gen_mesh(c)
  op = c.choice(OPS)
  form = c.weighted([('jitdist', 4), ('shard_map', 3), ('pmap', 2)])
  if form == 'pmap':
    mesh = {'kind': '1d', 'P': mesh['P']}
  nl = c.weighted([(1, 4), (2, 2), (3, 1)])
  wide = c.chance(0.3)
  w = dict(mesh=mesh, op=op, form=form, x64=wide,
           tree='leaf' if nl == 1 and c.chance(0.7) else c.choice(rt.TREES[1:]),
           leaves=[gen_leaf(c, op, wide) for _ in range(nl)],
           reduction=c.chance(0.5))
  if prop == 'C06':
    w['via'] = c.weighted([('preduce', 3), ('pscan', 1)])
  w['calls'] = [dict(seed=rng.getrandbits(31))
                for _ in range(rng.weighted([(1, 3), (2, 2), (3, 1)]))]
  # per run: other value styles for the same program
  w['leaves'] = [dict(l, style=rng.choice(STYLES)) for l in w['leaves']]
  ndev = mesh['P'] * mesh.get('Q', 1)
  faults = spmdgen.network_faults(rng, ndev, dispatches=len(w['calls']))
  if rng.chance(0.15):
    faults += spmdgen.crash_faults(rng, ndev, dispatches=len(w['calls']) + 1)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


@functools.lru_cache(maxsize=64)
def build(mesh_key, form, op, via, reduction):
  mesh, axis = rt.make_mesh(dict(mesh_key))
  jop = getattr(jnp, op)
  if via == 'preduce':
    f = lambda x: preduce(x, jop, axis)
  else:
    f = lambda x: pscan(x, jop, axis, reduction=reduction)
  if form == 'pmap':
    return jax.pmap(f, axis_name=axis)
  if form == 'jitdist':
    return jit_distributed(f, mesh, axis)
  # raw shard_map: every device of the mesh, along all axes, has its own block
  spec = PartitionSpec(tuple(mesh.axis_names))

  def body(x):
    x = jax.tree_util.tree_map(lambda a: a[0], x)
    out = f(x)
    return jax.tree_util.tree_map(lambda a: a[None], out)
  return jax.jit(shard_map(body, mesh=mesh, in_specs=spec, out_specs=spec,
                           check_rep=False))


def np_op(op, a, b):
  with np.errstate(all='ignore'):
    return getattr(np, op)(a, b).astype(a.dtype)


def identity(op, dtype, shape):
  if op in ('add', 'bitwise_or', 'bitwise_xor'):
    v = 0
  elif op == 'multiply':
    v = 1
  elif op == 'bitwise_and':
    return ~np.zeros(shape, dtype)
  else:
    lo = op == 'maximum'
    if dtype == 'bool':
      v = not lo
    elif dtype in FLOATS:
      v = -np.inf if lo else np.inf
    else:
      info = np.iinfo(dtype)
      v = info.min if lo else info.max
  return np.full(shape, v).astype(jnp.dtype(dtype))


def same(got, want, ex, mag, what, where):
  check(got.shape == want.shape, 'shape',
        f'{what}: shape {got.shape}, expected {want.shape} {where}')
  check(got.dtype == want.dtype, 'dtype',
        f'{what}: type {got.dtype}, expected {want.dtype} {where}')
  if got.dtype.kind not in 'fcV' and str(got.dtype) != 'bfloat16':
    ok = np.array_equal(got, want)
  else:
    g, e = ((got, want) if got.dtype.kind == 'c' else
            (got.astype(np.float64), want.astype(np.float64)))
    if ex:
      ok = np.array_equal(g, e, equal_nan=True)
    else:
      eps = {'float32': 1e-5, 'complex64': 1e-5, 'float64': 1e-13,
             'complex128': 1e-13}.get(str(got.dtype), 3e-2)
      with np.errstate(all='ignore'):
        close = np.abs(g - e) <= eps * np.maximum(mag, np.abs(e))
      ok = bool(np.all(close | (g == e) | (np.isnan(g) & np.isnan(e))))
  check(ok, what, lambda: f'{where}: got {got.tolist()}, expected '
        f'{want.tolist()}'[:400])


def reference(op, vals):
  """Exclusive prefix and total of a list of arrays, left to right."""
  pre = [identity(op, str(vals[0].dtype), vals[0].shape)]
  acc = None
  for v in vals:
    acc = v if acc is None else np_op(op, acc, v)
    pre.append(acc)
  return pre[:-1], pre[-1]


def overflow_risk(op, dtype, style):
  return (op in ('add', 'multiply') and dtype in FLOATS
          and style in ('extreme',))


def run(prop, ctx):
  w = ctx.w
  m = w['mesh']
  P, Q = m['P'], m.get('Q', 1)
  via = w.get('via', 'pscan')
  reduction = w['reduction'] or prop == 'C06'
  sim = spmd.Sim(ctx)
  fn = build(tuple(sorted(m.items())), w['form'], w['op'], via, reduction)
  own = w['form'] == 'shard_map' and Q > 1
  rows = P * Q if own else P
  for call in w['calls']:
    leaves = []
    for k, l in enumerate(w['leaves']):
      style = l['style']
      if overflow_risk(w['op'], l['dtype'], style):
        style = 'small'    # association may then legitimately matter
      leaves.append(data_for(call['seed'] + 7919 * k, style, l['dtype'],
                             (rows,) + tuple(l['shape'])))
    x = rt.build_tree(w['tree'], [jnp.asarray(a) for a in leaves])
    with intercept.active(sim):
      out = spmdgen.with_retries(lambda: fn(x), ctx.stats)
    if via == 'preduce':
      scan, total = None, out
    elif reduction:
      check(isinstance(out, tuple) and len(out) == 2, 'structure',
            'scan with reduction does not return a pair')
      scan, total = out
    else:
      scan, total = out, None
    td = jax.tree_util.tree_structure(x)
    for name, t in (('prefix', scan), ('total', total)):
      if t is None:
        continue
      check(jax.tree_util.tree_structure(t) == td, 'structure',
            f'{name}: structure changed')
    # groups of rows that are combined, in device order
    if not own:
      groups = [list(range(P))]
    elif m['kind'] == 'first':      # mesh axes (i, j): row = i * Q + j
      groups = [[i * Q + j for i in range(P)] for j in range(Q)]
    else:                           # mesh axes (j, i): row = j * P + i
      groups = [[j * P + i for i in range(P)] for j in range(Q)]
    sl = jax.tree_util.tree_leaves(scan) if scan is not None else None
    tl = jax.tree_util.tree_leaves(total) if total is not None else None
    xl = jax.tree_util.tree_leaves(x)
    for k, a in enumerate(xl):
      a = np.asarray(a)
      style = w['leaves'][k]['style']
      ex = exact(w['op'], style, str(a.dtype))
      for g in groups:
        pre, tot = reference(w['op'], [a[i] for i in g])
        with np.errstate(all='ignore'):
          mag = np.sum([np.abs(a[i].astype(np.complex128)) for i in g], axis=0)
          if w['op'] == 'multiply':
            mag = np.abs(tot.astype(np.complex128)) if tot.size else mag
          mag = np.where(np.isfinite(mag), mag, 1e300)
        for r, i in enumerate(g):
          if sl is not None and prop == 'C05':
            same(np.asarray(sl[k])[i], pre[r], ex, mag, 'prefix',
                 f'leaf {k} device {r}')
          if tl is not None:
            same(np.asarray(tl[k])[i], tot, ex, mag, 'total',
                 f'leaf {k} device {r}')
        if tl is not None:
          t = np.asarray(tl[k])
          b0 = t[g[0]].tobytes()
          check(all(t[i].tobytes() == b0 for i in g), 'divergence',
                f'leaf {k}: devices hold different totals')
    if any(np.isinf(np.asarray(a).astype(np.float64)).any() for a in leaves
           if a.dtype.kind != 'c' and a.dtype != bool and a.size):
      ctx.stats.probe('infinite_values')
    if Q > 1:
      ctx.stats.probe('second_axis')
    ctx.stats.probe('op_' + w['op'])
  ctx.nontrivial = P > 1


def shrink(w):
  if len(w['calls']) > 1:
    for c in w['calls']:
      yield {**w, 'calls': [c]}
  if len(w['leaves']) > 1:
    for k in range(len(w['leaves'])):
      yield {**w, 'leaves': [w['leaves'][k]], 'tree': 'leaf'}
  if w['mesh']['P'] > 2:
    for p in (2, 3, w['mesh']['P'] - 1):
      if p < w['mesh']['P']:
        yield {**w, 'mesh': {'kind': '1d', 'P': p}}
  for k, l in enumerate(w['leaves']):
    if l['shape']:
      yield {**w, 'leaves': w['leaves'][:k] + [{**l, 'shape': []}] + w['leaves'][k + 1:]}
