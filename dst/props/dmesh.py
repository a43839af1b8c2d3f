"""C09 (exchange), C10 (partitioning), C11 (assembly), C12 (solves)."""
import functools
import json

import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from dst import intercept, spmd, spmdgen
from dst import plan as planlib
from dst.core import check
from dst.props import meshes

from swirl_fem.core.fespace import FiniteElementSpace, grad
from swirl_fem.core.interpolation import NodeType, Quadrature1D
from swirl_fem.linalg.cg import cg


def gen(prop, c, rng, tier):
  small = dict(C11=dict(max_parts=6, high_order=0.3),
               C12=dict(max_parts=6, high_order=0.2)).get(prop, {})
  spec = meshes.gen_mesh(c, **small)
  for _ in range(20):
    size = meshes.premesh_of(dict(spec, parts=None)).elements.size
    if prop in ('C09', 'C10') or (spec['parts'] and size <= 600):
      break
    spec = meshes.gen_mesh(c, **small)
  if prop in ('C09', 'C10') and c.chance(0.12):
    spec['parts'] = None
    if prop == 'C09' and c.chance(0.3):
      spec.update(n=c.choice([1, 2]), shape=None)
      spec.pop('ties', None)
    elif prop == 'C09' and c.chance(0.7):
      n = c.int(4, 30)
      spec.update(ndim=1, n=n, order=1, periodic=[], shape=None,
                  ties=meshes.gen_ties(c, n + 1))
  w = dict(mesh=spec, x64=c.chance(0.35))
  if prop == 'C10' and spec['parts'] is not None:
    # another owner for every element in every run
    w['mesh'] = dict(spec, parts=meshes.gen_parts(rng, spec, 8) or spec['parts'])
  ndev = (max(w['mesh']['parts']) + 1) if w['mesh']['parts'] else 1
  if prop == 'C09':
    w['dtype'] = c.weighted([('float32', 6), ('int32', 1), ('float16', 1),
                             ('complex64', 1)] + [('float64', 6), ('int64', 1),
                                                  ('complex128', 1)] * w['x64'])
    w['calls'] = [dict(seed=rng.getrandbits(30),
                       style=rng.choice(['small', 'real', 'mixed', 'ones',
                                         'single']),
                       pad=rng.choice(['zero', 'random', 'nan', 'inf']),
                       vec=rng.weighted([(0, 4), (2, 1), (3, 1)]))
                  for _ in range(rng.int(1, 3))]
  if prop == 'C11':
    w['op'] = c.choice(['mass', 'stiffness', 'load', 'varcoef', 'scatter',
                        'integrals', 'convect'])
    w['quad'] = c.choice(['gauss_legendre', 'gauss_lobatto_legendre'])
    w['calls'] = [dict(seed=rng.getrandbits(30),
                       pad=rng.choice(['zero', 'random']))]
  if prop == 'C12':
    w['mode'] = c.choice(['assembled', 'local'])
    w['precond'] = c.choice([None, 'jacobi', 'scaled'])
    w['tree'] = c.chance(0.2)
    # sums are added in device order: repeated solves round alike
    w['fixed_order'] = rng.chance(0.6)
    w['calls'] = [dict(seed=rng.getrandbits(30), kappa=rng.choice([0.01, 0.1, 1.0]),
                       tol=rng.choice(([1e-4, 1e-3, 1e-3, 1e-2, 0.3]
                                       if w['mode'] == 'assembled' else
                                       [1e-3, 1e-2, 1e-2, 0.3])
                                      + [1e-8, 1e-6, 1e-5] * w['x64']),
                       atol=rng.choice([0.0, 0.0, 0.0, 1e-2, 1.0, 30.0]),
                       maxiter=rng.weighted([(None, 4), (1, 1), (3, 1), (7, 1), (0, 0.5)]),
                       x0=rng.chance(0.4), zero=rng.chance(0.06))]
    for call in w['calls']:
      if call['zero'] and call['x0'] and not call['atol']:
        call['atol'] = 1e-2    # a relative tolerance of zero is never met
  faults = spmdgen.network_faults(rng, ndev, dispatches=2, msgs=12 * ndev,
                                  colls=30)
  if rng.chance(0.15):
    faults += spmdgen.crash_faults(rng, ndev, dispatches=3)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


def empty_devices(ctx, spec):
  if spec.get('shape'):
    ctx.stats.probe('mesh_of_' + spec['shape']['kind'])
  if spec['parts'] and len(set(spec['parts'])) <= max(spec['parts']):
    ctx.stats.probe('device_without_elements')


# -- C09 ----------------------------------------------------------------------
def values(call, shape, dtype='float32'):
  r = np.random.RandomState(call['seed'])
  dtype = np.dtype(dtype)
  if call['style'] == 'ones':
    return np.ones(shape, dtype)
  if call['style'] == 'single':
    u = np.zeros(shape, dtype)
    u.ravel()[r.randint(u.size)] = 1
    return u
  if dtype.kind == 'i':
    top = 8 if call['style'] == 'small' else np.iinfo(dtype).max // 64
    return r.randint(-top, top + 1, size=shape).astype(dtype)
  if call['style'] == 'small':
    u = r.randint(-8, 9, size=shape).astype(dtype)
    if dtype.kind == 'c':
      u = (u + 1j * r.randint(-8, 9, size=shape)).astype(dtype)
    return u
  u = r.normal(size=shape)
  if dtype.kind == 'c':
    u = u + 1j * r.normal(size=shape)
  if call['style'] == 'mixed':
    top = 2 if dtype == np.float16 else 5
    u = u * np.power(10.0, r.randint(1 - top, top, size=shape))
  return u.astype(dtype)


def finalize(ctx, spec):
  """The real mesh, placed on simulated devices."""
  pm = meshes.premesh_of(spec)
  if spec['parts'] is None:
    return pm.finalize()
  return spmdgen.with_retries(lambda: pm.finalize(axis_name='i'), ctx.stats)


def run_c09(ctx):
  w = ctx.w
  spec = w['mesh']
  sim = spmd.Sim(ctx)
  with intercept.active(sim):
    mesh = finalize(ctx, spec)
    view = meshes.View(spec, mesh)
    for call in w['calls']:
      trail = (call['vec'],) if call['vec'] else ()
      u = values(call, view.valid.shape + trail, w['dtype'])
      if spec['parts'] is not None:
        r = np.random.RandomState(call['seed'] + 1)
        pad = {'zero': 0.0, 'nan': np.nan, 'inf': np.inf}.get(call['pad'])
        if pad is None or u.dtype.kind == 'i':
          fill = (100 * r.normal(size=u.shape)).astype(u.dtype)
        else:
          fill = np.full(u.shape, pad, u.dtype)
        u = np.where(view.valid.reshape(view.valid.shape + (1,) * len(trail)),
                     u, fill)
      ex = lambda m, x: m.exchange(x)
      if trail:
        ex = lambda m, x: jax.vmap(m.exchange, in_axes=-1, out_axes=-1)(x)
      if spec['parts'] is None:
        got = ex(mesh, jnp.asarray(u))
      else:
        fn = jax.pmap(ex, axis_name='i')
        got = spmdgen.with_retries(lambda: fn(mesh, jnp.asarray(u)), ctx.stats)
      got = np.asarray(got)
      check(got.shape == u.shape and got.dtype == u.dtype, 'shape',
            f'exchanged values are {got.shape} {got.dtype}')
      cols = [()] if not trail else [(k,) for k in range(trail[0])]
      for c in cols:
        verify_exchange(view, u[(...,) + c], got[(...,) + c])
      if (view.scatter_sum(u[(...,) + cols[0]], np.complex128)[2] > 2).any():
        ctx.stats.probe('node_with_3_copies')
    if not view.valid.all():
      ctx.stats.probe('padding')
    if spec['periodic'] or spec.get('ties'):
      ctx.stats.probe('periodic')
    empty_devices(ctx, spec)
  ctx.nontrivial = bool(spec['parts'] or spec['periodic'] or spec.get('ties'))


def verify_exchange(view, u, got):
  big = {'i': np.int64, 'c': np.complex128}.get(u.dtype.kind, np.float64)
  tot, mag, cnt = view.scatter_sum(u, big)
  v = view.valid
  cls = view.cls[v]
  want, m, n = tot[cls], mag[cls], cnt[cls]
  g = got[v].astype(big)
  single = n == 1
  check(np.array_equal(got[v][single], u[v][single]), 'unshared-changed',
        lambda: f'values of unshared nodes changed: {u[v][single].tolist()} -> '
        f'{got[v][single].tolist()}'[:400])
  if big is np.int64:
    bad = g != want
  else:
    eps = 32 * float(np.finfo(u.dtype).eps)
    tiny = float(np.finfo(u.dtype).tiny)
    bad = ~(np.abs(g - want) <= eps * m + tiny)
  check(not bad.any(), 'sum', lambda: (
      f'slot {np.argwhere(v)[np.argmax(bad)].tolist()} holds '
      f'{g[np.argmax(bad)]}, the copies sum to {want[np.argmax(bad)]}'))
  order = np.argsort(cls, kind='stable')
  bits = np.ascontiguousarray(got[v][order] + got.dtype.type(0)).view(np.uint8).reshape(len(order), -1)
  apart = (np.diff(cls[order]) == 0) & (bits[1:] != bits[:-1]).any(axis=1)
  check(not apart.any(), 'copies-differ', lambda: (
      f'copies of one node hold {got[v][order][np.argmax(apart)]!r} and '
      f'{got[v][order][np.argmax(apart) + 1]!r}'))
  check(np.array_equal(got[~v], u[~v], equal_nan=u.dtype.kind != 'i'),
        'padding-changed', 'padding positions received values')


# -- C10 ----------------------------------------------------------------------
def run_c10(ctx):
  spec = ctx.w['mesh']
  sim = spmd.Sim(ctx)
  with intercept.active(sim):
    ctx.stats.event('mesh', json.dumps(spec, sort_keys=True))
    mesh = finalize(ctx, spec)
    ref = meshes.premesh_of(dict(spec, parts=None)).finalize()
  pm = meshes.premesh_of(dict(spec, parts=None))
  view = meshes.View(spec, mesh)
  check(mesh.order == pm.order and mesh.gridpoints_1d.num_points
        == pm.gridpoints_1d.num_points, 'order', 'the order changed')
  if ctx.w.get('x64'):
    check(np.asarray(mesh.node_coords).dtype == pm.node_coords.dtype,
          'coordinates', 'the coordinates lost precision')
  idx = np.asarray(mesh.node_indices)
  # same number <=> same class
  number = {}
  of_class = {}
  for s in np.argwhere(view.valid):
    s = tuple(s)
    n, c = int(idx[s]), int(view.cls[s])
    check(number.setdefault(n, c) == c, 'identity',
          lambda: f'number {n} is used for different nodes')
    check(of_class.setdefault(c, n) == n, 'identity',
          lambda: f'one node carries numbers {of_class[c]} and {n}')
  # groups, as on the unpartitioned mesh
  check(set(mesh.physical_masks) == set(ref.physical_masks)
        == set(pm.physical_groups), 'groups',
        f'groups are {sorted(mesh.physical_masks)}')
  for g in pm.physical_groups:
    want = np.asarray(ref.physical_masks[g])
    got = np.asarray(mesh.physical_masks[g])
    check(got.shape == view.valid.shape, 'groups', f'{g} has shape {got.shape}')
    for s in np.argwhere(view.valid):
      s = tuple(s)
      check(bool(got[s]) == bool(want[view.node[s]]), 'groups', lambda: (
          f'slot {s} (node {view.node[s]}): member of {g} is {got[s]}, '
          f'unpartitioned {want[view.node[s]]}'))
    # an independent look at membership
    listed = set(view.classes[
        np.asarray(pm.physical_groups[g], np.int64).ravel()].tolist())
    for s in np.argwhere(view.valid):
      s = tuple(s)
      check(bool(got[s]) == (int(view.cls[s]) in listed), 'groups',
            lambda: f'slot {s}: wrong membership in {g}')
    if any(len(set((view.classes == k).nonzero()[0]) - set(
        np.asarray(pm.physical_groups[g]).ravel().tolist())) for k in listed):
      ctx.stats.probe('group_lists_one_copy')
  el = np.asarray(mesh.elements)
  if spec['parts'] is None:
    check(np.array_equal(el, pm.elements), 'elements', 'elements changed')
    check(np.array_equal(view.node, np.arange(pm.num_nodes)), 'coordinates',
          'nodes were reordered')
    ctx.nontrivial = bool(spec['periodic'] or spec.get('ties'))
    return
  P = max(spec['parts']) + 1
  check(el.shape[0] == P and idx.shape[0] == P, 'devices',
        f'mesh lies on {el.shape[0]} devices instead of {P}')
  used = [set() for _ in range(P)]
  for p in range(P):
    got = []
    for e in el[p]:
      if (e == -1).all():
        continue
      check((e >= 0).all() and (e < idx.shape[1]).all() and
            view.valid[p][e].all(), 'elements',
            lambda: f'device {p}: element {e.tolist()} has invalid nodes')
      used[p].update(e.tolist())
      got.append(tuple(view.node[p][e].tolist()))
    want = [tuple(map(int, pm.elements[k])) for k, o in enumerate(spec['parts'])
            if o == p]
    check(sorted(got) == sorted(want), 'elements', lambda: (
        f'device {p} holds elements {sorted(got)}, should hold {sorted(want)}'
        )[:500])
    check(len(got) == len({tuple(sorted(x)) for x in got}), 'elements',
          f'device {p} holds an element twice')
    nodes = view.node[p][view.valid[p]]
    check(len(nodes) == len(set(nodes.tolist())), 'identity',
          f'device {p} holds a node twice')
    check(set(nodes.tolist()) == {v for x in want for v in x}, 'elements',
          f'device {p} holds nodes of no element')
    if len(got) < el.shape[1]:
      ctx.stats.probe('padding_elements')
  if not view.valid.all():
    ctx.stats.probe('padding_nodes')
  if spec['periodic'] or spec.get('ties'):
    ctx.stats.probe('periodic')
  empty_devices(ctx, spec)
  ctx.nontrivial = P > 1


# -- C11 ----------------------------------------------------------------------
def operator(op, quad):
  def apply(mesh, u):
    q = Quadrature1D.create(num_points=mesh.order + 2,
                            quadrature_type=NodeType(quad))
    fs = FiniteElementSpace.create(mesh, q)
    loc = mesh.gather(u)
    uf, vf = fs.scalar_function(loc), fs.scalar_function(None)
    dist = mesh.axis_name is not None
    if op == 'integrals':
      valid = (mesh.elements[:, 0] != -1)
      vals = jnp.stack([
          fs.integrate(lambda x: jnp.ones((), x.dtype)),
          fs.integrate(uf),
          fs.integrate(lambda x: uf(x) * uf(x)),
          fs.integrate(lambda x: jnp.dot(grad(uf)(x), grad(uf)(x))),
          fs.integrate(lambda x: 1 / (0.001 + jnp.dot(x, x)) * uf(x)),
          jnp.sum(valid).astype(u.dtype),
          # padding elements gather nothing
          jnp.sum(loc), jnp.sum(mesh.gather(jnp.ones_like(u)))])
      return lax.psum(vals, mesh.axis_name) if dist else vals
    if op == 'scatter':
      weight = 1 + jnp.arange(loc.shape[1], dtype=u.dtype)
      return mesh.exchange(mesh.scatter(loc * loc * weight))
    form = {
        'mass': lambda f, v: lambda x: f(x) * v(x),
        'stiffness': lambda f, v: lambda x: jnp.vdot(grad(f)(x), grad(v)(x)),
        'varcoef': lambda f, v: lambda x: (1 + jnp.dot(x, x)) * jnp.vdot(
            grad(f)(x), grad(v)(x)) + jnp.cos(x[0]) * f(x) * v(x),
        'convect': lambda f, v: lambda x: (f(x) * grad(f)(x)[0]) * v(x),
    }
    if op == 'load':
      cov = fs.local_covector(
          lambda v: lambda x: jnp.sin(x[0] + 2 * x[-1]) * v(x), (vf,))
    else:
      cov = fs.local_covector(form[op], (uf, vf))
    return mesh.exchange(mesh.scatter(cov))
  return apply


@functools.lru_cache(maxsize=40)
def op_fns(op, quad):
  f = operator(op, quad)
  return jax.pmap(f, axis_name='i'), f


def distribute(view, u_ref, pad, seed):
  r = np.random.RandomState(seed)
  fill = (np.zeros(view.valid.shape) if pad == 'zero'
          else r.normal(size=view.valid.shape))
  return np.where(view.valid, u_ref[view.node], fill).astype(u_ref.dtype)


def real(w):
  return np.float64 if w.get('x64') else np.float32


def field(view, seed, dtype):
  """A nodal field that is single-valued on tied nodes."""
  r = np.random.RandomState(seed)
  return r.normal(size=view.pm.num_nodes).astype(dtype)[view.classes]


_serial = {}


def serial(spec, what, fn):
  """fn with the unpartitioned mesh as its first argument, compiled."""
  key = json.dumps([dict(spec, parts=None), what, jax.config.jax_enable_x64],
                   sort_keys=True)
  if key not in _serial:
    if len(_serial) > 60:
      _serial.clear()
    mesh = meshes.premesh_of(dict(spec, parts=None)).finalize()
    _serial[key] = planlib.REAL_JIT(lambda *a: fn(mesh, *a))
  return _serial[key]


_matrices = {}


def run_c11(ctx):
  w = ctx.w
  spec = w['mesh']
  pfn, ser = op_fns(w['op'], w['quad'])
  sim = spmd.Sim(ctx)
  with intercept.active(sim):
    mesh = finalize(ctx, spec)
    view = meshes.View(spec, mesh)
    sfn = serial(spec, [w['op'], w['quad']], ser)
    for call in w['calls']:
      u = field(view, call['seed'], real(w))
      ud = distribute(view, u, call['pad'], call['seed'] + 1)
      got = spmdgen.with_retries(lambda: pfn(mesh, jnp.asarray(ud)), ctx.stats)
      want = sfn(jnp.asarray(u))
      check(got.dtype == u.dtype, 'shape', f'results are {got.dtype}')
      fine = 1e-7 if w.get('x64') else 1.0
      got, want = np.asarray(got, np.float64), np.asarray(want, np.float64)
      if w['op'] == 'integrals':
        check(got.shape == (view.valid.shape[0],) + want.shape, 'shape',
              f'{got.shape}')
        scale = np.abs(want) + 1e-3 * np.abs(want).max() + 1
        bad = ~(np.abs(got - want[None]) <= fine * 2e-4 * scale)
        check(not bad.any(), 'integral', lambda: (
            f'integrals {got.tolist()} on the devices, {want.tolist()} on '
            'one device'))
        check(all(g.tobytes() == got[0].tobytes() for g in got), 'divergence',
              'devices hold different integrals')
      else:
        check(got.shape == view.valid.shape, 'shape', f'{got.shape}')
        scale = np.abs(want).max() + 1e-2
        ref_at = want[view.node]
        bad = view.valid & ~(np.abs(got - ref_at) <= fine * 5e-4 * scale)
        check(not bad.any(), 'assembly', lambda: (
            f'{w["op"]}: slot {np.argwhere(bad)[0].tolist()} holds '
            f'{got[bad][0]}, on one device {ref_at[bad][0]}'))
      ctx.stats.probe('op_' + w['op'])
  if not view.valid.all():
    ctx.stats.probe('padding')
  if spec['periodic'] or spec.get('ties'):
    ctx.stats.probe('periodic')
  empty_devices(ctx, spec)
  ctx.nontrivial = view.valid.shape[0] > 1


# -- C12 ----------------------------------------------------------------------
@functools.lru_cache(maxsize=60)
def cg_fn(mode, precond, tree, has_x0, maxiter, dist):
  """maxiter: None, or 'given' (passed as an argument)."""
  def solve(mesh, b, x0, kappa, tol, atol, limit):
    q = Quadrature1D.create(num_points=mesh.order + 2,
                            quadrature_type=NodeType.GAUSS_LEGENDRE)
    fs = FiniteElementSpace.create(mesh, q)
    valid = jnp.asarray(mesh.node_indices) != -1
    mult = jnp.where(valid, mesh.exchange(valid.astype(b.dtype)), 1)
    weight = jnp.where(valid, 1 / mult, 0)
    total = (lambda s: lax.psum(s, mesh.axis_name)) if dist else (lambda s: s)

    def stiff(u, k):
      uf, vf = fs.scalar_function(mesh.gather(u)), fs.scalar_function(None)
      return mesh.scatter(fs.local_covector(
          lambda f, v: lambda x: f(x) * v(x) + k * jnp.vdot(
              grad(f)(x), grad(v)(x)), (uf, vf)))

    ones_b = mesh.scatter(fs.local_covector(
        lambda f, v: lambda x: f(x) * v(x),
        (fs.scalar_function(mesh.gather(jnp.ones_like(b))),
         fs.scalar_function(None))))
    lumped = jnp.where(valid, mesh.exchange(ones_b), 1)
    if mode == 'assembled':
      A1 = lambda u, k: mesh.exchange(stiff(u, k))
      dot = lambda a, c: total(jnp.sum(weight * a * c))
      pre = {'jacobi': lambda r: r / lumped, 'scaled': lambda r: 3.0 * r,
             None: None}[precond]
      rhs = b
    else:    # residuals stay unassembled, as in the flow solver
      A1 = stiff
      dot = lambda a, c: total(jnp.vdot(a, c))
      pre = {'jacobi': lambda r: mesh.exchange(r) / lumped,
             'scaled': lambda r: 3.0 * mesh.exchange(r),
             None: mesh.exchange}[precond]
      rhs = weight * b
    if tree:
      A = lambda t: {'p': A1(t['p'], kappa), 'q': A1(t['q'], 0.5 * kappa)}
      M = None if pre is None else lambda t: jax.tree_util.tree_map(pre, t)
      rhs = {'p': rhs, 'q': 2.0 * rhs}
      start = {'p': x0, 'q': -x0} if has_x0 else None
    else:
      A, M, start = (lambda u: A1(u, kappa)), pre, x0 if has_x0 else None
    kw = {} if maxiter is None else dict(maxiter=limit)
    x, info = cg(A, rhs, start, tol=tol, atol=atol, M=M, dot_fn=dot, **kw)
    r = jax.tree_util.tree_map(lambda a, c: a - c, rhs, A(x))
    z = r if M is None else M(r)
    true = sum(jax.tree_util.tree_leaves(jax.tree_util.tree_map(dot, r, z)))
    bs = sum(jax.tree_util.tree_leaves(jax.tree_util.tree_map(dot, rhs, rhs)))
    return x, info['num_iterations'], info['residual'], true, bs

  if dist:
    return jax.pmap(solve, axis_name='i',
                    in_axes=(0, 0, 0, None, None, None, None))
  return solve


def matrices(spec):
  """Mass, stiffness, exchange of the unpartitioned mesh, written out."""
  def columns(mesh, eye):
    q = Quadrature1D.create(num_points=mesh.order + 2,
                            quadrature_type=NodeType.GAUSS_LEGENDRE)
    fs = FiniteElementSpace.create(mesh, q)
    vf = fs.scalar_function(None)

    def column(u):
      uf = fs.scalar_function(mesh.gather(u))
      return [mesh.scatter(fs.local_covector(form, (uf, vf))) for form in (
          lambda f, v: lambda x: f(x) * v(x),
          lambda f, v: lambda x: jnp.vdot(grad(f)(x), grad(v)(x)))]
    return jax.vmap(column)(eye)
  pm = meshes.premesh_of(dict(spec, parts=None))
  key = json.dumps(dict(spec, parts=None), sort_keys=True)
  if key not in _matrices:
    _matrices.clear()
    B, K = planlib.REAL_JIT(functools.partial(columns, pm.finalize()))(
        jnp.eye(pm.num_nodes))
    cls = meshes.node_classes(pm)
    _matrices[key] = (np.asarray(B).T, np.asarray(K).T,
                      (cls[:, None] == cls[None]).astype(float))
  return _matrices[key]


def plain_cg(w, call, spec, b, x0, atol2):
  """A generator of the iterates, in numpy."""
  B, K, Q = matrices(spec)
  n = len(b)
  mult = Q.sum(axis=1)
  lumped = Q @ (B @ np.ones(n))
  blocks = [(1.0, 1.0, 1.0), (0.5, 2.0, -1.0)] if w['tree'] else [(1., 1., 1.)]
  k = call['kappa']
  assembled = w['mode'] == 'assembled'

  def A(v):
    out = [B @ u + k * f * (K @ u) for u, (f, _, _) in zip(v, blocks)]
    return np.stack([Q @ u for u in out] if assembled else out)

  def M(r):
    z = r if assembled else r @ Q
    return {None: z, 'jacobi': z / lumped, 'scaled': 3.0 * z}[w['precond']]
  dot = lambda a, c: float((a * c / (mult if assembled else 1.0)).sum())
  rhs = np.stack([f * b for _, f, _ in blocks]) / (1.0 if assembled else mult)
  x = np.stack([f * x0 for _, _, f in blocks]) * float(call['x0'])
  r = rhs - A(x)
  p = z = M(r)
  g = dot(r, z)
  while True:
    yield x, g
    Ap = A(p)
    a = g / dot(p, Ap)
    x, r = x + a * p, r - a * Ap
    z = M(r)
    g, old = dot(r, z), g
    p = z + g / old * p


def run_c12(ctx):
  w = ctx.w
  spec = w['mesh']
  sim = spmd.Sim(ctx)
  f32 = real(w)
  fine = 1e-7 if w.get('x64') else 1.0
  with intercept.active(sim):
    mesh = finalize(ctx, spec)
    view = meshes.View(spec, mesh)
    for call in w['calls']:
      b = field(view, call['seed'], f32)
      if call['zero']:
        b = b * 0
      x0 = field(view, call['seed'] + 5, f32)
      bd = distribute(view, b, 'zero', 0)
      xd = distribute(view, x0, 'zero', 0)

      def args(lim):
        return (f32(call['kappa']), f32(call['tol']), f32(call['atol']),
                np.int32(lim))

      def dist_solve(lim, given):
        fn = cg_fn(w['mode'], w['precond'], w['tree'], call['x0'],
                   'given' if given else None, True)
        out = spmdgen.with_retries(
            lambda: fn(mesh, jnp.asarray(bd), jnp.asarray(xd), *args(lim)),
            ctx.stats)
        x, its, res, true, bs = out
        its, res = np.asarray(its), np.asarray(res)
        check(len(set(its.tolist())) == 1, 'divergence',
              f'devices ran {its.tolist()} iterations')
        check(len({v.tobytes() for v in res}) == 1, 'divergence',
              f'devices report residuals {res.tolist()}')
        return (x, int(its[0]), float(res[0]), float(np.asarray(true)[0]),
                float(np.asarray(bs)[0]))

      lim = call['maxiter']
      # without a limit, guard against a solve that never converges
      default = lim is None
      # one program for both calls, so that they round alike
      top = 10 * int(np.prod(view.valid.shape[1:])) * (2 if w['tree'] else 1)
      limit = top if default else lim
      x, its, res, true, bs = dist_solve(limit, True)
      atol2 = max(call['tol'] ** 2 * bs, call['atol'] ** 2)
      size = view.pm.num_nodes
      check(its <= limit, 'limit', f'{its} iterations, the limit is {limit}')
      if its < limit:
        check(res <= atol2 * 1.001 + 1e-37, 'stopped-early', lambda: (
            f'stopped after {its} iterations with residual {res}, '
            f'tolerance {atol2}'))
        ctx.stats.probe('converged')
      else:
        ctx.stats.probe('iteration_limit')
      if its == 0:
        ctx.stats.probe('no_iterations')
      if its > 0 and w['fixed_order']:
        _, its1, res1, _, _ = dist_solve(its - 1, True)
        check(its1 == its - 1, 'limit',
              f'{its1} iterations with limit {its - 1}')
        check(res1 > atol2 * 0.999, 'stopped-late', lambda: (
            f'the residual was already {res1} after {its - 1} iterations, '
            f'tolerance {atol2}, but the solve went on to {its}'))
      if default:
        # the default limit is another program, which may round differently
        _, its_d, res_d, _, _ = dist_solve(0, False)
        check(its_d <= top, 'limit',
              f'{its_d} iterations, the default limit is {top}')
        if its <= 25:
          check(abs(its_d - its) <= 2 + its // 4, 'iterations', lambda: (
              f'{its_d} iterations by default, {its} with the limit {top}'))
        check(its_d == top or res_d <= atol2 * 1.001 + 1e-37, 'stopped-early',
              lambda: f'stopped after {its_d} of {top} iterations with '
              f'residual {res_d}, tolerance {atol2}')
      scale = 9 * (bs + 1e-30) + (16 * float(np.square(x0).sum())
                                  if call['x0'] else 0)
      check(abs(true - res) <= 0.05 * max(abs(true), abs(res)) + fine * 1e-7 * scale
            + np.sqrt(fine) * 1e-6 * np.sqrt(scale * max(abs(res), 0)), 'residual', lambda: (
                f'reported residual {res}, the returned solution has {true}'))
      # serial solution
      how = [w['mode'], w['precond'], w['tree'], call['x0'],
             'given']
      sfn = serial(spec, how, cg_fn(*how, False))
      xs, its_s, _, _, _ = sfn(jnp.asarray(b), jnp.asarray(x0),
                               *args(limit))
      same_path = (w['mode'] == 'assembled' and int(its_s) == its and its <= 25)
      leaves = jax.tree_util.tree_leaves(x)
      leaves_s = jax.tree_util.tree_leaves(xs)
      check(len(leaves) == len(leaves_s), 'structure', 'structure changed')
      for a, c in zip(leaves, leaves_s):
        a, c = np.asarray(a, np.float64), np.asarray(c, np.float64)
        check(a.shape == view.valid.shape, 'shape', f'{a.shape}')
        check(np.isfinite(a[view.valid]).all(), 'result', 'not finite')
        # copies of one node agree
        hi = np.full(size, -np.inf)
        lo = np.full(size, np.inf)
        np.maximum.at(hi, view.cls[view.valid], a[view.valid])
        np.minimum.at(lo, view.cls[view.valid], a[view.valid])
        scale = np.abs(a[view.valid]).max() + np.abs(c).max() + 1e-6 + (
            np.abs(x0).max() if call['x0'] else 0)
        spread = (hi - lo)[np.isfinite(hi)].max()
        check(spread <= np.sqrt(fine) * 1e-3 * scale, 'copies-differ',
              f'copies of a node differ by {spread} of {scale}')
        if same_path:
          err = np.abs(a - c[view.node])[view.valid].max()
          check(err <= np.sqrt(fine) * 2e-2 * scale, 'result', lambda: (
              f'solution differs by {err} (of {scale}) from the serial one '
              f'after the same {its} iterations'))
          ctx.stats.probe('compared_iterates')
        elif its < limit and int(its_s) < limit and call['tol'] <= 1e-3 and (
            call['atol'] == 0):
          err = np.abs(a - c[view.node])[view.valid].max()
          check(err <= 0.1 * scale, 'result', lambda: (
              f'solution differs by {err} (of {scale}) from the serial one'))
          ctx.stats.probe('compared_solutions')
      if default and w['mode'] == 'assembled' and its > 0 and its <= 25:
        check(abs(int(its_s) - its) <= 2 + its // 4, 'iterations', lambda: (
            f'{its} iterations on the devices, {int(its_s)} on one device'))
      ctx.stats.count('cg_iterations', its)
      if w.get('x64'):
        ctx.stats.probe('compared_plain')
        compare_plain(w, call, spec, view, b, x0, leaves, its, limit, atol2)
  ctx.nontrivial = view.valid.shape[0] > 1


def compare_plain(w, call, spec, view, b, x0, leaves, its, limit, atol2):
  """The iterates are those of the method, written out in numpy."""
  done = None
  for i, (x, g) in enumerate(plain_cg(w, call, spec, b, x0, atol2)):
    if i == its and its <= 25:
      for a, c in zip(leaves, x):
        a = np.asarray(a)
        scale = np.abs(a[view.valid]).max() + np.abs(c).max() + 1e-6 + (
            np.abs(x0).max() if call['x0'] else 0)
        err = np.abs(a - c[view.node])[view.valid].max()
        check(err <= 6e-6 * scale, 'result', lambda: (
            f'solution differs by {err} (of {scale}) from that of {its} steps '
            'of the method'))
    if g <= atol2:
      done = i
      break
    if i >= max(its, 25):
      break
  if done is not None:
    # (until rounding matters both take the same number of steps)
    check(min(done, limit) - 2 - done // 4 <= its <= done + 2 + done // 4,
          'iterations', lambda: (f'{its} iterations on the devices, the method '
                                 f'takes {done} to {atol2}'))


RUN = dict(C09=run_c09, C10=run_c10, C11=run_c11, C12=run_c12)


def run(prop, ctx):
  RUN[prop](ctx)


def shrink(w):
  if len(w.get('calls', [])) > 1:
    for k in range(len(w['calls'])):
      yield {**w, 'calls': w['calls'][:k] + w['calls'][k + 1:]}
  for s in meshes.shrink(w['mesh']):
    yield {**w, 'mesh': s}
  if w['mesh']['parts'] and not w['mesh']['periodic'] and not (
      w['mesh'].get('ties')):
    P = max(w['mesh']['parts']) + 1
    if P > 1:
      yield {**w, 'mesh': {**w['mesh'], 'parts': [min(p, P - 2) for p in w['mesh']['parts']]}}
