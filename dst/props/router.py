"""C01, C02, C03: the sparse all-to-all (crystal router)."""
import collections

import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import Mesh

from dst import intercept, spmd, spmdgen
from dst.core import check, Violation

from swirl_fem.communication.crystal_router import crystal_router_setup

DTYPES = ['int32', 'float32', 'bool', 'int8', 'uint32', 'float16', 'uint8',
          'bfloat16', 'complex64']
WIDE = ['int64', 'float64', 'uint64', 'complex128']
TREES = ['leaf', 'tuple', 'dict', 'nested']

_routers = {}


def make_mesh(m):
  """m: {'kind', 'P', 'Q'} -> (Mesh, axis_name, index of the axis)."""
  devs = np.array(jax.devices())
  P, Q = m['P'], m.get('Q', 1)
  if m['kind'] == '1d':
    return Mesh(devs[:P], ('i',)), 'i'
  if m['kind'] == 'rev':
    return Mesh(devs[:P][::-1], ('i',)), 'i'
  if m['kind'] == 'first':
    return Mesh(devs[:P * Q].reshape(P, Q), ('i', 'j')), 'i'
  if m['kind'] == 'second':
    return Mesh(devs[:P * Q].reshape(Q, P), ('j', 'i')), 'i'
  raise ValueError(m)


def gen_mesh(rng, counts=None, allow_2d=True):
  P = rng.weighted(counts or [(1, 2), (2, 3), (3, 4), (4, 2), (5, 4), (6, 3),
                              (7, 4), (8, 2), (9, 2), (10, 1), (11, 2),
                              (13, 1), (15, 1), (16, 1)])
  kinds = [('1d', 6), ('rev', 1)]
  if allow_2d and P <= 8:
    kinds += [('first', 1), ('second', 1)]
  kind = rng.weighted(kinds)
  m = {'kind': kind, 'P': P}
  if kind in ('first', 'second'):
    m['Q'] = rng.int(2, max(2, min(3, 16 // P)))
  return m


def router_for(m):
  key = tuple(sorted(m.items()))
  if key not in _routers:
    mesh, axis = make_mesh(m)
    _routers[key] = crystal_router_setup(mesh, axis)
  return _routers[key]


# -- data ---------------------------------------------------------------------
def cast(ids, leaf_no, dtype, trail):
  """A field of the items with the given ids: injective as far as possible."""
  n = ids.shape
  base = ids.astype(np.int64) * (2 * leaf_no + 1) + 7 * leaf_no
  t = int(np.prod(trail)) if trail else 1
  a = base[..., None] * 3 + np.arange(t) * 5
  a = a.reshape(n + tuple(trail))
  if dtype == 'bool':
    return (a // 3) % 2 == 0
  if dtype == 'complex64':
    return (a % 1000 + 1j * (a % 37)).astype(np.complex64)
  if dtype in ('int8', 'uint8'):
    return (a % 127).astype(dtype)
  if dtype in ('float16', 'bfloat16'):
    return np.asarray(jnp.asarray((a % 200).astype(np.float32)).astype(dtype))
  if dtype == 'complex128':
    return a / 3 + 1j * (a % 37)
  if dtype == 'float64':
    return a / 3
  if dtype in ('int64', 'uint64'):
    return (a + (1 << 40)).astype(dtype)
  if dtype == 'float32':
    return (a % 100003).astype(np.float32) * np.float32(0.25)
  return (a % 1000003).astype(dtype)


def build_tree(kind, leaves):
  if kind == 'leaf':
    return leaves[0]
  if kind == 'tuple':
    return tuple(leaves)
  if kind == 'dict':
    return {f'k{i}': l for i, l in enumerate(leaves)}
  if len(leaves) == 1:
    return {'a': [leaves[0]]}
  return {'a': [leaves[0]], 'b': (tuple(leaves[1:]), {})}


def targets_for(rng, pat, P, n):
  """Target of every item; lists of lists."""
  if pat == 'random':
    return [[rng.randrange(P) for _ in range(k)] for k in n]
  if pat == 'one':
    t = rng.randrange(P)
    return [[t] * k for k in n]
  if pat == 'two':
    t = rng.sample(range(P), min(2, P))
    return [[rng.choice(t) for _ in range(k)] for k in n]
  if pat == 'self':
    return [[p] * k for p, k in enumerate(n)]
  if pat == 'reverse':
    return [[P - 1 - p] * k for p, k in enumerate(n)]
  if pat == 'ring':
    s = rng.randrange(P)
    return [[(p + s) % P] * k for p, k in enumerate(n)]
  if pat == 'spread':
    return [[j % P for j in range(k)] for k in n]
  if pat == 'half':
    h = (P + 1) // 2
    lo, hi = (0, h) if rng.chance(0.5) else (min(h, P - 1), P)
    return [[rng.randrange(lo, hi) for _ in range(k)] for k in n]
  if pat == 'skew':
    w = [(p, 1.0 / (1 + ((p * 7 + 3) % P)) ** 2) for p in range(P)]
    return [[rng.weighted(w) for _ in range(k)] for k in n]
  raise ValueError(pat)


PATTERNS = [('random', 4), ('one', 3), ('two', 2), ('self', 1), ('reverse', 1),
            ('ring', 1), ('spread', 1), ('half', 2), ('skew', 2)]


def counts_for(rng, pat, P, D):
  if pat == 'full':
    return [D] * P
  if pat == 'empty':
    return [0] * P
  if pat == 'onefull':
    q = rng.randrange(P)
    return [D if p == q else 0 for p in range(P)]
  if pat == 'sparse':
    return [rng.int(0, D) if rng.chance(0.4) else 0 for _ in range(P)]
  return [rng.int(0, D) for _ in range(P)]


COUNTS = [('random', 4), ('full', 3), ('empty', 0.3), ('onefull', 1),
          ('sparse', 2)]


def gen_call(rng, P, D):
  n = counts_for(rng, rng.weighted(COUNTS), P, D)
  return {'D': D, 'n': n,
          'targets': targets_for(rng, rng.weighted(PATTERNS), P, n),
          'pad': rng.choice(['zero', 'random', 'poison']),
          'pad_seed': rng.getrandbits(16)}


def gen_cfg(rng, prop):
  mesh = gen_mesh(rng)
  big = mesh['P'] * mesh.get('Q', 1) > 9
  D = rng.weighted([(1, 2), (2, 1), (3, 2), (4, 2), (5, 2), (7, 1), (8, 2),
                    (9, 1), (12, 1), (0, 0.2)])
  nl = rng.weighted([(1, 4), (2, 3), (3, 1)]) if not big else 1
  if prop == 'C02':
    nl = rng.weighted([(1, 1), (2, 4), (3, 3), (4, 1)]) if not big else 2
  if prop == 'C03':
    nl = rng.weighted([(1, 5), (2, 1)])
    D = rng.weighted([(1, 4), (2, 3), (3, 3), (4, 2), (5, 1), (8, 1)])
  wide = rng.chance(0.25)
  many = mesh['P'] * mesh.get('Q', 1) <= 5 and rng.chance(0.06)
  if many:         # more slots than an 8-bit number can count
    D, nl = rng.choice([129, 150, 200, 257]), 1
  leaves = []
  for k in range(nl):
    dt = 'int32' if k == 0 and rng.chance(0.7) else rng.choice(DTYPES)
    if wide and rng.chance(0.6):
      dt = rng.choice(WIDE)
    trail = rng.weighted([((), 5), ((2,), 2), ((3, 2), 1), ((1,), 1), ((0,), .2)])
    leaves.append([dt, list(trail)])
  return {
      'x64': wide, 'mesh': mesh, 'D': D, 'leaves': leaves,
      'tree': rng.choice(TREES[1:]) if nl > 1 else rng.choice(['leaf', 'leaf', 'dict', 'nested', 'tuple']),
      'source': rng.chance(0.75),
      'tdtype': rng.weighted([('int32', 8), ('int16', 1), ('uint8', 1),
                              ('uint32', 1), ('int8', 1)]
                             + [('int64', 6)] * wide + [('int8', 12)] * many),
      'ndtype': rng.weighted([('int32', 8), ('int16', 1), ('uint32', 1)]
                             + [('int64', 6)] * wide),
      'np_inputs': rng.chance(0.3),
  }


def gen(prop, cfg_rng, rng, tier):
  w = gen_cfg(cfg_rng, prop)
  P, D = w['mesh']['P'], w['D']
  ops = [dict(op='route', **gen_call(rng, P, D))]
  if prop == 'C02':
    w['source'] = w['source'] or rng.chance(0.5)
    k = rng.weighted([(1, 1), (2, 2), (3, 1)])
    while len(ops) < 1 + k:
      ops.append({'op': rng.weighted([('back', 4), ('again', 1)]),
                  'seed': rng.getrandbits(16)})
  if prop == 'C03':
    for _ in range(rng.weighted([(0, 2), (1, 2), (2, 1)])):
      D2 = rng.choice([D, D, max(1, D // 2), D * 2])
      ops.append(dict(op='route', **gen_call(rng, P, D2)))
    for o in ops:
      if rng.chance(0.6):
        o['n'] = [o['D']] * P
        o['targets'] = targets_for(rng, rng.choice(['one', 'two', 'half', 'skew', 'one']), P, o['n'])
  w['ops'] = ops
  ndev = P * w['mesh'].get('Q', 1)
  if prop == 'C03' and rng.chance(0.5):
    faults = spmdgen.crash_faults(rng, ndev, dispatches=4 + 4 * len(ops))
    if rng.chance(0.4):
      faults += spmdgen.network_faults(rng, ndev)
  elif prop == 'C02' and rng.chance(0.15):
    faults = spmdgen.crash_faults(rng, ndev, dispatches=8)
  else:
    faults = spmdgen.network_faults(rng, ndev)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


# -- running ------------------------------------------------------------------
def pad_to(rows, D, fill):
  out = np.zeros((len(rows), D), np.int64)
  for p, r in enumerate(rows):
    out[p, :len(r)] = r
    for j in range(len(r), D):
      out[p, j] = fill(p, j)
  return out


def build_inputs(w, op, serial):
  """(n, leaves, target, ids) for one call; ids are unique over the run."""
  P, D = w['mesh']['P'], op['D']
  prng = np.random.RandomState(op['pad_seed'])
  tmax = 100
  if op['pad'] == 'zero':
    fill = lambda p, j: 0
  elif op['pad'] == 'random':
    fill = lambda p, j: prng.randint(0, P)
  else:
    vals = [P, tmax, 0, P - 1, P + 1]
    if w['tdtype'] in ('int32', 'int16', 'int8', 'int64'):
      vals += [-1, -2, -100]
    fill = lambda p, j: vals[prng.randint(0, len(vals))]
  target = pad_to(op['targets'], D, fill).astype(w['tdtype'])
  ids = serial + np.arange(P * D, dtype=np.int64).reshape(P, D)
  if op['pad'] == 'zero':
    valid = np.arange(D)[None, :] < np.array(op['n'])[:, None]
    ids = np.where(valid, ids, 0)
  leaves = [cast(ids, k, dt, tr) for k, (dt, tr) in enumerate(w['leaves'])]
  n = np.array(op['n']).astype(w['ndtype'])
  return n, leaves, target


def records(n, leaves, extra, P):
  """Per device: list of (extra, bytes of every field)."""
  out = []
  for p in range(P):
    rows = []
    for j in range(int(n[p])):
      rows.append((None if extra is None else int(extra[p][j]),)
                  + tuple(np.ascontiguousarray(l[p, j]).tobytes()
                          for l in leaves))
    out.append(rows)
  return out


def expected(n, leaves, target, P):
  exp = [[] for _ in range(P)]
  rows = records(n, leaves, None, P)
  for p in range(P):
    for j, r in enumerate(rows[p]):
      exp[int(target[p, j])].append((p,) + r[1:])
  return exp


def show(counter, k=3):
  return [(str(a[0]), [b.hex()[:16] for b in a[1:]], c)
          for a, c in list(counter.items())[:k]]


def compare(exp, got, what, labelled):
  for p, (e, g) in enumerate(zip(exp, got)):
    if not labelled:
      e = [(None,) + r[1:] for r in e]
    ce, cg = collections.Counter(e), collections.Counter(g)
    check(ce == cg, what, lambda: (
        f'device {p}: expected {len(e)} items, got {len(g)}; '
        f'missing {show(ce - cg)}; unexpected {show(cg - ce)}'))


def flat_leaves(data, w, P):
  like = build_tree(w['tree'], [0] * len(w['leaves']))
  ltd = jax.tree_util.tree_structure(like)
  leaves, td = jax.tree_util.tree_flatten(data)
  check(td == ltd, 'structure', f'item structure changed: {td} != {ltd}')
  return [np.asarray(l) for l in leaves]


def check_shapes(w, n, leaves, src, P):
  n = np.asarray(n)
  check(n.shape == (P,), 'shape', f'counts have shape {n.shape}')
  size = leaves[0].shape[1] if leaves[0].ndim > 1 else -1
  for (dt, tr), l in zip(w['leaves'], leaves):
    check(str(l.dtype) == dt, 'dtype', f'field became {l.dtype}, was {dt}')
    check(l.shape == (P, size) + tuple(tr), 'shape',
          f'field has shape {l.shape}, expected ({P}, {size}) + {tr}')
  check(bool((n >= 0).all()) and int(n.max()) <= size, 'count',
        f'counts {n.tolist()} exceed the returned length {size}')
  if src is not None:
    check(src.shape == (P, size), 'shape', f'senders have shape {src.shape}')


def call_router(ctx, router, w, n, leaves, target, source, P):
  conv = (lambda a: a) if w['np_inputs'] else jnp.asarray
  args = [conv(n), build_tree(w['tree'], [conv(l) for l in leaves]),
          conv(target)]
  before = [np.array(x) for x in jax.tree_util.tree_leaves(args)]
  start = ctx.stats.counts.get('dispatches', 0)

  def once():
    if source:
      return router(*args)
    return router(*args, return_source=False)

  out = spmdgen.with_retries(once, ctx.stats)
  used = ctx.stats.counts.get('dispatches', 0) - start
  for a, b in zip(before, jax.tree_util.tree_leaves(args)):
    check(np.array_equal(a.view(np.uint8) if a.ndim and a.size else a,
                         np.asarray(b).view(np.uint8) if a.ndim and a.size
                         else np.asarray(b)),
          'input-modified', 'the exchange changed its input arrays')
  check(len(out) == (3 if source else 2), 'structure',
        f'{len(out)} results returned')
  n2 = np.asarray(out[0])
  l2 = flat_leaves(out[1], w, P)
  s2 = np.asarray(out[2]) if source else None
  check_shapes(w, n2, l2, s2, P)
  return n2, l2, s2, used


def run(prop, ctx):
  w = ctx.w
  P = w['mesh']['P']
  sim = spmd.Sim(ctx)
  router = router_for(w['mesh'])
  serial = 1
  state = None       # (n, leaves, source, original per-device records)
  with intercept.active(sim):
    for op in w['ops']:
      if op['op'] == 'route':
        n, leaves, target = build_inputs(w, op, serial)
        serial += P * max(1, op['D'])
        exp = expected(n, leaves, target, P)
        orig = records(n, leaves, None, P)
      elif state is None:
        continue
      elif op['op'] == 'back':
        n, leaves, target, orig = state
        exp = None
      else:   # again: route what arrived to new targets
        n, leaves, _, _ = state
        r = np.random.RandomState(op['seed'])
        target = r.randint(0, P, size=leaves[0].shape[:2]).astype(w['tdtype'])
        exp = expected(n, leaves, target, P)
        orig = records(n, leaves, None, P)
      source = w['source']
      retries0 = ctx.stats.counts.get('client_retries', 0)
      n2, l2, s2, used = call_router(ctx, router, w, n, leaves, target, source,
                                     P)
      if exp is None:
        exp = [[(None,) + r[1:] for r in rows] for rows in orig]
        compare(exp, records(n2, l2, None, P), 'round-trip', labelled=False)
        ctx.stats.probe('round_trip')
        state = None
        continue
      compare(exp, records(n2, l2, None, P), 'delivery', labelled=False)
      if source and prop in ('C02',):
        compare(exp, records(n2, l2, s2, P), 'sender', labelled=True)
      if prop == 'C03':
        tries = 1 + ctx.stats.counts.get('client_retries', 0) - retries0
        total = max(2, int(np.asarray(n).astype(np.int64).sum()))
        bound = tries * (12 + 6 * (int(np.log2(total)) + 2))
        check(used <= bound, 'no-progress',
              f'{used} dispatches for one exchange of {total} items')
      size = l2[0].shape[1]
      start_buf = 1 << max(0, (target.shape[1] - 1)).bit_length() if target.shape[1] else 0
      if size > start_buf:
        ctx.stats.probe('buffer_grown')
      if int(np.asarray(n2).max()) == 0:
        ctx.stats.probe('nothing_sent')
      if P == 1:
        ctx.stats.probe('single_device')
      state = (n2, l2, s2, orig) if source else None
      ctx.stats.count('items', int(np.asarray(n).astype(np.int64).sum()))
  ctx.nontrivial = ctx.stats.counts.get('items', 0) > 0 and P > 1


def shrink(w):
  """Smaller workloads, most aggressive first."""
  ops = w['ops']
  if len(ops) > 1:
    for k in range(len(ops)):
      yield {**w, 'ops': ops[:k] + ops[k + 1:]}
  if len(w['leaves']) > 1:
    for k in range(len(w['leaves'])):
      yield {**w, 'leaves': w['leaves'][:k] + w['leaves'][k + 1:],
             'tree': 'tuple'}
  for k, o in enumerate(ops):
    if o['op'] != 'route':
      continue
    for p in range(len(o['n'])):
      if o['n'][p] > 0:
        for m in (0, o['n'][p] // 2, o['n'][p] - 1):
          if m < o['n'][p]:
            o2 = {**o, 'n': o['n'][:p] + [m] + o['n'][p + 1:],
                  'targets': o['targets'][:p] + [o['targets'][p][:m]] + o['targets'][p + 1:]}
            yield {**w, 'ops': ops[:k] + [o2] + ops[k + 1:]}
    if o['pad'] != 'zero':
      yield {**w, 'ops': ops[:k] + [{**o, 'pad': 'zero'}] + ops[k + 1:]}
  for key, simple in (('tdtype', 'int32'), ('ndtype', 'int32'),
                      ('np_inputs', False)):
    if w[key] != simple:
      yield {**w, key: simple}
