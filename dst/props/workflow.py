"""C22: from a mesh file to the solution of a linear problem on many devices.

Every process of a job reads the mesh file (from a faulty disk), marks the
boundary, partitions and refines; one of them is a separate process with
another hash seed. The job then distributes the mesh over simulated devices and
solves a Poisson or Helmholtz problem there.
"""
import functools
import hashlib
import io
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import traceback
import contextlib

import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from dst import intercept, simfs, spmd, spmdgen
from dst import plan as planlib
from dst.core import HarnessError, check
from dst.props import meshes, meshfile

from swirl_fem.common import mesh_partitioner, mesh_reader
from swirl_fem.core.fespace import FiniteElementSpace, grad
from swirl_fem.core.interpolation import NodeType, Nodes1D, Quadrature1D
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.linalg.cg import cg


def gen(prop, c, rng, tier):
  ndim = c.weighted([(1, 2), (2, 6), (3, 2)])
  order = c.weighted([(1, 3), (2, 3), (3, 2), (4, 1)] if ndim < 3 else
                     [(1, 2), (2, 2), (3, 1.5)])
  size = [c.int(1, {1: 10, 2: 4, 3: 2}[ndim]) for _ in range(ndim)]
  periodic = []
  if ndim > 1 and c.chance(0.25):
    periodic = [c.randrange(ndim)]
    size[periodic[0]] = c.int(3, 5)
  m = int(np.prod(size))
  fmt = c.choice(['4.1', '4.1', '2.2'])
  file = dict(
      ndim=ndim, size=size, periodic=periodic, fmt=fmt, binary=c.chance(0.5),
      sparse=(not periodic and c.chance(0.4)), split=c.chance(0.4), facets=True,
      orphans=c.weighted([(0, 3), (2, 1)]), comments=c.chance(0.2),
      lower=c.chance(0.6), warp=0., seed=c.getrandbits(30),
      amp=c.choice([0., 0., 0.12]))
  parts = c.int(1, min(8, m))
  if periodic:
    parts = c.int(min(m, 3), min(8, m))
  w = dict(file=file, order=order, parts=parts, x64=c.chance(0.6),
           nodes=c.choice(['newton_cotes', 'gauss_lobatto_legendre']),
           steps=c.choice([['partition', 'refine'], ['refine', 'partition']]),
           fixed=c.choice(['all', 'all', 'all', 'some']),
           some=c.getrandbits(6), jacobi=c.chance(0.4),
           hosts=rng.int(1, 3), hashseed=rng.choice([0, 0, 1]),
           kappa=rng.choice([0.0, 0.0, 0.5, 3.0]), data=rng.getrandbits(30),
           chunk=rng.choice([1 << 20, 512, 61]))
  if w['fixed'] == 'some':
    w['kappa'] = w['kappa'] or 1.0
  faults = spmdgen.network_faults(rng, parts, dispatches=3, msgs=12 * parts,
                                  colls=30)
  if rng.chance(0.2):
    faults += spmdgen.crash_faults(rng, parts, dispatches=4)
  for i in range(w['hosts']):
    if rng.chance(0.35):
      f = meshfile._fault(rng, i)
      if f['kind'] == 'file' and f['what'] != 'bad':
        f = dict(kind='file', inc=i, what='bad', frac=round(rng.random(), 4))
      faults.append(f)
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


# -- setting up the mesh (also run by the other process) ------------------------
def prepare(pm, w, sides):
  """What a job does with the mesh it has read."""
  n = pm.ndim
  xyz = np.asarray(pm.node_coords)
  groups = {}
  for name, facets in sides.items():
    at = {tuple(p): i for i, p in enumerate(xyz.tolist())}
    groups[name] = np.array([[at[tuple(p)] for p in f] for f in facets],
                            np.int32).reshape(len(facets), 2 ** (n - 1))
  pm = pm.replace(physical_groups=groups)
  for step in w['steps']:
    if step == 'partition':
      pm = mesh_partitioner.partition(pm, num_partitions=w['parts'])
    elif w['order'] > 1:
      pm = refine_premesh(pm, Nodes1D.create(
          num_points=w['order'] + 1, node_type=NodeType(w['nodes'])))
  return pm


def digest(pm):
  h = {}
  for k, v in (('coordinates', pm.node_coords), ('elements', pm.elements),
               ('periodic links', pm.periodic_links),
               ('partitions', pm.partitions),
               *((f'group {g}', v) for g, v in sorted(
                   pm.physical_groups.items()))):
    a = np.asarray([] if v is None else v)
    h[k] = [str(a.shape), hashlib.sha256(np.ascontiguousarray(a)).hexdigest()]
  return h


def sides_of(data):
  """Facets on the sides of the box that are not periodic, by coordinates."""
  n, size = data.ndim, data.w['size']
  out = {}
  for d in range(n):
    if d in data.w['periodic']:
      continue
    for side in (0, size[d]):
      facets = []
      for base in itertools.product(*[range(s) for i, s in enumerate(size)
                                      if i != d]):
        f = []
        for c in itertools.product((0, 1), repeat=n - 1):
          g = [b + x for b, x in zip(base, c)]
          g.insert(d, side)
          f.append(data.points[data.index[tuple(g)]][:n].tolist())
        facets.append(f)
      out[f'{"xyz"[d]}{"01"[side > 0]}'] = facets
  return out


class Other:
  """Another process of the job, with another hash seed."""
  _all = {}

  @classmethod
  def get(cls, seed):
    if seed not in cls._all:
      cls._all[seed] = cls(seed)
    return cls._all[seed]

  def __init__(self, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(1000 + 37 * seed))
    self.p = subprocess.Popen(
        [sys.executable, '-m', 'dst.props.workflow'], env=env,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
        stderr=subprocess.DEVNULL)

  def ask(self, **req):
    self.p.stdin.write(json.dumps(req) + '\n')
    self.p.stdin.flush()
    line = self.p.stdout.readline()
    if not line:
      raise HarnessError('the other process has ended')
    return json.loads(line)


def serve():
  out = os.fdopen(os.dup(1), 'w', buffering=1)
  os.dup2(2, 1)
  for line in sys.stdin:
    req = json.loads(line)
    try:
      jax.config.update('jax_enable_x64', req['w']['x64'])
      random.seed(5)
      np.random.seed(6)
      pm = mesh_reader.read(req['path'], ndim=req['ndim'])
      ans = digest(prepare(pm, req['w'], req['sides']))
    except BaseException as e:  # pylint: disable=broad-except
      ans = {'error': f'{type(e).__name__}: {e}'}
    out.write(json.dumps(ans) + '\n')


# -- the problem ----------------------------------------------------------------
def exponents(ndim, degree):
  return [e for e in itertools.product(range(degree + 1), repeat=ndim)
          if sum(e) <= degree]


def laplacian(coefs, exps, L):
  """Coefficients of the Laplacian of a polynomial in (x - x0) / L."""
  at = {e: i for i, e in enumerate(exps)}
  out = np.zeros(len(exps))
  for c, e in zip(coefs, exps):
    for d, k in enumerate(e):
      if k >= 2:
        f = list(e)
        f[d] -= 2
        out[at[tuple(f)]] += c * k * (k - 1) / L[d] ** 2
  return out


def poly(xp, coefs, exps, y):
  v = 0.0
  for k, e in enumerate(exps):
    t = coefs[k]
    for d, p in enumerate(e):
      if p:
        t = t * y[d] ** p
    v = v + t
  return v


@functools.lru_cache(maxsize=40)
def solver(ndim, degree, dist, jacobi, fixed):
  exps = exponents(ndim, degree)

  def solve(mesh, cu, cf, box, kappa, tol):
    q = Quadrature1D.create(num_points=mesh.order + 2,
                            quadrature_type=NodeType.GAUSS_LEGENDRE)
    fs = FiniteElementSpace.create(mesh, q)
    total = (lambda s: lax.psum(s, mesh.axis_name)) if dist else (lambda s: s)
    at = lambda c: lambda x: poly(jnp, c, exps, (x - box[0]) / box[1])
    valid = jnp.asarray(mesh.node_indices) != -1
    mask = jnp.zeros(valid.shape, bool)
    for g in fixed:
      mask = mask | jnp.asarray(mesh.physical_masks[g]).astype(bool)
    mask = mask & valid
    free = valid & ~mask
    uex = jax.vmap(at(cu))(mesh.node_coords)
    g = jnp.where(mask, uex, 0)
    dtype = g.dtype
    vf = fs.scalar_function(None)
    asm = lambda cov: mesh.exchange(mesh.scatter(cov))
    mult = jnp.where(valid, mesh.exchange(valid.astype(dtype)), 1)
    dot = lambda a, c: total(jnp.sum(jnp.where(valid, a * c / mult, 0)))
    b = asm(fs.local_covector(lambda v: lambda x: at(cf)(x) * v(x), (vf,)))

    def K(u):
      uf = fs.scalar_function(mesh.gather(u))
      return asm(fs.local_covector(
          lambda f, v: lambda x: kappa * f(x) * v(x) + jnp.vdot(
              grad(f)(x), grad(v)(x)), (uf, vf)))

    rhs = jnp.where(free, b - K(g), 0)
    A = lambda w: jnp.where(free, K(jnp.where(free, w, 0)), 0)
    M = None
    if jacobi:
      ones = asm(fs.local_covector(
          lambda f, v: lambda x: f(x) * v(x),
          (fs.scalar_function(mesh.gather(jnp.ones_like(b))), vf)))
      # (a node of no element has no mass)
      M = lambda r: jnp.where(free, r / jnp.where(ones == 0, 1, ones), 0)
    x, info = cg(A, rhs, tol=tol, M=M, dot_fn=dot)
    u = g + x
    uh = fs.scalar_function(mesh.gather(u))
    sums = total(jnp.stack([
        fs.integrate(lambda x: jnp.ones((), dtype)), fs.integrate(uh),
        fs.integrate(lambda x: uh(x) * uh(x))]))
    count = total(jnp.sum(jnp.where(mask, 1 / mult, 0)))
    return u, info['num_iterations'], info['residual'], sums, count

  if dist:
    return jax.pmap(solve, axis_name='i', in_axes=(0,) + (None,) * 5)
  return solve


_serial = {}


def serial(pm, key, fn):
  """The solver on one device, compiled for one mesh."""
  if key not in _serial:
    if len(_serial) > 40:
      _serial.clear()
    mesh = pm.finalize()
    _serial[key] = planlib.REAL_JIT(lambda *a: fn(mesh, *a))
  return _serial[key]


# -- one job --------------------------------------------------------------------
def run(prop, ctx):
  root = tempfile.mkdtemp(prefix='flow-', dir=os.environ.get('DST_SCRATCH'))
  try:
    job(ctx, root)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def read(ctx, root, path, blob, inc):
  """One process reads the file; None if it meets an error."""
  fs = simfs.SimFS(ctx, root, inc=inc)
  fs.read_chunk = ctx.w['chunk']
  for f in ctx.faults:
    if f['kind'] == 'file' and f['inc'] == inc and blob:
      fs.bad[path] = int(f['frac'] * len(blob))
  quiet = io.StringIO()
  with contextlib.redirect_stdout(quiet), contextlib.redirect_stderr(quiet):
    with simfs.mounted(fs):
      try:
        return mesh_reader.read(path, ndim=ctx.w['file']['ndim'])
      except (Exception, SystemExit) as e:  # pylint: disable=broad-except
        traceback.clear_frames(e.__traceback__)
        check(fs.hits > 0, 'spurious-error', lambda: (
            f'process {inc} cannot read an intact mesh file: '
            f'{type(e).__name__}: {str(e)[:200]}'))
        ctx.stats.probe('read_again')
        return None


def job(ctx, root):
  w = ctx.w
  data = meshfile.MeshData(w['file'])
  n, order = data.ndim, w['order']
  blob = data.encode()
  path = os.path.join(root, 'mesh.msh')
  with open(path, 'wb') as h:
    h.write(blob)
  sides = sides_of(data)
  digests = []
  serial_pm = None
  for host in range(w['hosts']):
    raw = read(ctx, root, path, blob, host)
    if raw is None:      # the process is started again
      raw = read(ctx, root, path, blob, 100 + host)
    random.seed(w['data'] + host)
    np.random.seed((w['data'] + 3 * host) % 2**32)
    pm = prepare(raw, w, sides)
    digests.append(digest(pm))
    if serial_pm is None:
      mine, serial_pm = pm, pm.replace(partitions=None)
  if not w.get('alone'):
    other = Other.get(w['hashseed']).ask(path=path, ndim=n, w=w, sides=sides)
    if 'error' in other:
      raise HarnessError(other['error'])
    digests.append(other)
    ctx.stats.probe('other_hash_seed')
  for i, d in enumerate(digests[1:]):
    for k in d:
      check(d[k] == digests[0][k], 'processes-differ', lambda: (
          f'processes 0 and {i + 1} set up different {k} from the same file'))
  ctx.stats.event('mesh', json.dumps(digests[0], sort_keys=True))
  # owners
  parts = np.asarray(mine.partitions)
  m = len(data.elements)
  check(parts.shape == (m,), 'owners', lambda: (
      f'{parts.shape} owners for {m} elements'))
  check(len(mine.elements) == m, 'elements',
        f'{len(mine.elements)} elements instead of {m}')
  check((parts >= 0).all() and (parts < w['parts']).all(), 'owners', lambda: (
      f'owners {parts.tolist()} among {w["parts"]} parts'))
  counts = np.bincount(parts, minlength=w['parts'])
  check(counts.max() <= 2 * -(-m // w['parts']) and counts.min() > 0, 'balance',
        lambda: f'{m} elements are split as {counts.tolist()}')
  # the distributed mesh
  cls = meshes.node_classes(serial_pm)
  conflict = False
  for p in range(w['parts']):
    nodes = np.unique(np.asarray(serial_pm.elements)[parts == p])
    conflict |= len(np.unique(cls[nodes])) < len(nodes)
  exact = w['file']['amp'] == 0. and not w['file']['periodic'] and (
      w['fixed'] == 'all')
  f = np.float64 if w['x64'] else np.float32
  r = np.random.RandomState(w['data'])
  degree = order if exact else 2
  exps = exponents(n, degree)
  cu = r.normal(size=len(exps)) / len(exps)
  xyz = data.points[:, :n]
  inner = np.array([xyz[i] for i in data.index.values()])
  box = np.stack([inner.mean(axis=0), np.ptp(inner, axis=0)])
  if exact:
    cf = w['kappa'] * cu - laplacian(cu, exps, box[1])
  else:
    cf = r.normal(size=len(exps)) / len(exps)
  names = sorted(sides)
  if w['fixed'] == 'some' and names:
    names = [g for i, g in enumerate(names) if w['some'] >> i & 1]
  if w['file']['periodic'] and not names and not w['kappa']:
    names = sorted(sides)
  tol = 1e-11 if w['x64'] else 1e-5
  kappa = w['kappa'] if names else (w['kappa'] or 1.0)
  if exact:
    kappa = w['kappa']
  args = [a.astype(f) for a in (cu, cf, box)] + [f(kappa), f(tol)]
  fixed = tuple(names)
  sim = spmd.Sim(ctx)
  with intercept.active(sim):
    try:
      mesh = spmdgen.with_retries(lambda: mine.finalize(axis_name='i'), ctx.stats)
    except NotImplementedError:
      check(conflict, 'refused', 'a mesh without periodic nodes that meet in '
            'one part is refused')
      ctx.stats.probe('refused')
      ctx.nontrivial = False
      return
    view = meshes.View(None, mesh, pm=serial_pm)
    fn = solver(n, degree, True, w['jacobi'], fixed)
    out = spmdgen.with_retries(lambda: fn(mesh, *args), ctx.stats)
  u, its, res, sums, count = [np.asarray(x) for x in out]
  for name, v in (('iterations', its), ('residuals', res), ('integrals', sums)):
    check(all(x.tobytes() == v[0].tobytes() for x in v), 'divergence',
          lambda: f'devices report {name} {v.tolist()}')
  check(u.shape == view.valid.shape, 'shape', f'solution has shape {u.shape}')
  used = np.unique(np.asarray(serial_pm.elements))
  check(set(view.node[view.valid].tolist()) == set(used.tolist()), 'nodes',
        'the devices do not hold all nodes of the mesh')
  # conservation: the box and its boundary
  fine = 1e-9 if w['x64'] else 1e-4
  if not w['file']['amp']:
    vol = np.prod(box[1])
    check(abs(sums[0][0] - vol) <= fine * vol, 'volume', lambda: (
        f'the elements on the devices fill {sums[0][0]} of {vol}'))
  grid = [order * s + 1 for s in w['file']['size']]
  marked = np.zeros(grid, bool)
  for g in fixed:
    d = 'xyz'.index(g[0])
    marked[(slice(None),) * d + (-1 if g[1] == '1' else 0,)] = True
  for d in w['file']['periodic']:
    marked = np.take(marked, range(grid[d] - 1), axis=d)
  check(abs(count[0] - marked.sum()) < 1e-3 * (1 + count[0]), 'boundary',
        lambda: f'{count[0]} distinct nodes are on the sides {fixed}, '
        f'expected {marked.sum()}')
  vals = np.asarray(u, np.float64)[view.valid]
  node = view.node[view.valid]
  if exact:
    y = ((serial_pm.node_coords - box[0]) / box[1]).T
    want = poly(np, cu, exps, y) * np.ones(serial_pm.num_nodes)
    ctx.stats.probe('exact_solution')
  else:
    sfn = solver(n, degree, False, w['jacobi'], fixed)
    su, _, _, ssums, _ = serial(
        serial_pm, json.dumps([digests[0], w['x64'], w['nodes'], fixed,
                               w['jacobi'], degree]), sfn)(*args)
    want = np.asarray(su, np.float64)
    scale = np.abs(ssums).max() + np.abs(want[used]).max()
    check(np.abs(sums[0] - ssums).max() <= 1e4 * tol * scale, 'integral',
          lambda: f'integrals {sums[0].tolist()} on the devices, '
          f'{np.asarray(ssums).tolist()} on one')
  scale = np.abs(want[used]).max() + 1e-3
  err = np.abs(vals - want[node])
  limit = (1e-7 if w['x64'] else 5e-3) * scale
  check((err <= limit).all(), 'solution', lambda: (
      f'at {serial_pm.node_coords[node[np.argmax(err)]].tolist()} the solution '
      f'is {vals[np.argmax(err)]}, ' + ('exactly ' if exact else 'on one device ')
      + f'{want[node][np.argmax(err)]}'))
  ctx.stats.count('cg_iterations', int(its[0]))
  if its[0] > 0:
    ctx.stats.probe('solved')
  if w['file']['periodic']:
    ctx.stats.probe('periodic')
  ctx.nontrivial = w['parts'] > 1


def shrink(w):
  if w['hosts'] > 1:
    yield {**w, 'hosts': 1}
  if not w.get('alone'):
    yield {**w, 'alone': True}
  if w['order'] > 1:
    yield {**w, 'order': 1}
  if w['jacobi']:
    yield {**w, 'jacobi': False}
  f = w['file']
  for key, small in (('binary', False), ('split', False), ('orphans', 0),
                     ('comments', False), ('lower', False), ('sparse', False),
                     ('amp', 0.)):
    if f[key] != small:
      yield {**w, 'file': {**f, key: small}}
  for d in range(f['ndim']):
    if f['size'][d] > 1 and d not in f['periodic']:
      s = list(f['size'])
      s[d] = 1
      if np.prod(s) >= w['parts']:
        yield {**w, 'file': {**f, 'size': s}}
  if w['parts'] > 1 and not f['periodic']:
    yield {**w, 'parts': w['parts'] - 1}


if __name__ == '__main__':
  serve()
