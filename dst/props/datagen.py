"""C19, C21: the simulation that writes data files, on a simulated disk."""
import collections
import io
import json
import os
import re
import shutil
import tempfile

import jax
import jax.numpy as jnp
import numpy as np

from dst import hosts, simfs
from dst.core import Context, SimCrash, StubMissing, Violation, check

from absl import flags
import h5py

from swirl_fem.common import premesh_commons
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.navier_stokes import navier_stokes
from swirl_fem.niles.datagen import datagen

NAME = re.compile(r'kolmogorov_flow_grid_(\d+)_order_(\d+)_step_(\d+)_(\d+)'
                  r'\.hdf5$')
EVERY = 10


class FakeSpace:
  """The velocity or pressure space: a mesh (and itself as the inner space)."""

  def __init__(self, mesh):
    self.mesh = mesh
    self.interior_mask = np.ones((mesh.num_nodes, 1))
    self.local_shape = (mesh.num_elements, mesh.num_nodes_per_element, mesh.ndim)

  @property
  def vspace(self):
    return self

  @property
  def pspace(self):
    return self

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'StokesSEM.velocity.{name}')


class FakeSem:
  """Stands in for the flow solver; every part of the history matters."""

  def __init__(self, mesh, delay):
    self.velocity, self.pressure = FakeSpace(mesh), FakeSpace(mesh)
    self.delay = delay

  def C(self, u):
    return 0.7 * u * jnp.abs(u) + 0.05 * jnp.roll(u, 1, axis=0)

  def B(self, f):
    return 0.5 * f

  def stokes_one_step(self, us, ps, f, mu, dt, alpha=0., time_order=2, tol=0.,
                      atol=0., u_boundary=None, pressure_preconditioner=None,
                      project_out_nullspace=True):
    u = (0.5 * us[-1] + 0.3 * us[-2] - 0.15 * us[-3]
         + 0.05 * f + 0.1 * (ps[-1] - ps[-2])[:, None] + 10 * dt)
    p = 0.6 * ps[-1] + 0.2 * ps[-2] - 0.1 * ps[-3] + u[:, 0] * u[:, 1]
    return u, p, {k: {'residual': jnp.zeros((), u.dtype),
                      'num_iterations': jnp.ones((), jnp.int32)}
                  for k in ('u_star_info', 'dp_info')}

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'StokesSEM.{name}')


_meshes = {}


def mesh_of(grid, order):
  key = grid, order, jax.config.jax_enable_x64
  if key not in _meshes:
    _meshes[key] = refine_premesh(
        premesh_commons.unit_cube_mesh(grid, periodic_dims=(0, 1)),
        gridpoints_1d=Nodes1D.create(
            num_points=order + 1,
            node_type=NodeType.GAUSS_LOBATTO_LEGENDRE)).finalize()
  return _meshes[key]


def gen(prop, c, rng, tier):
  real = c.chance(0.02)
  w = dict(grid=c.int(1, 4) if not real else 2, order=c.int(1, 3), real=real,
           dt=c.choice([1e-4, 1e-3, 2.5e-4, 0.01]))
  if real:
    w.update(order=3, cycles=2, steps=10)
  else:
    w['steps'] = EVERY * c.int(1, 4)
    w['cycles'] = c.int(1, 5)
  w['clocks'] = [dict(start=rng.choice([0., 1.7e9, 2.2e9]),
                      rate=rng.choice([1e-6, 0.01, 100., -1.0]))
                 for _ in range(4)]
  w['chunk'] = rng.choice([100, 1024, 1 << 30])
  w['rerun'] = rng.chance(0.5)
  # what earlier jobs have left under the same names
  w['stale'] = rng.weighted([(None, 5), ('other', 2), ('zeros', 1), ('longer', 1)])
  w['stale_part'] = rng.choice([0.5, 1.0])
  w['x64'] = c.chance(0.4)
  faults = []
  if prop == 'C21' or rng.chance(0.2):
    ninc = rng.int(1, 3)
    for inc in range(ninc):
      what = rng.weighted([('torn', 4), ('kill_before', 2), ('kill_after', 2),
                           ('eio', 4), ('enospc', 4)])
      f = dict(kind='disk', inc=inc, what=what, part=rng.random(),
               frac=rng.choice([0.0, 0.1, 0.5, 0.9, 0.999]),
               of=rng.choice([None, None, 'write', 'write', 'open_w']))
      faults.append(f)
  if rng.chance(0.4):
    for _ in range(rng.int(1, 3)):
      faults.append(dict(kind='disk', inc=rng.int(0, 3), what='short',
                         of='write', part=rng.random(),
                         frac=rng.choice([0.01, 0.5])))
  sched = {'seed': rng.getrandbits(48), 'wild': 1.0}
  if real:
    w['rerun'], faults = False, faults[:1]
  return {'workload': w, 'sched': sched, 'faults': faults}


def read_file(path):
  """Content of a data file, or None if it cannot be read as one."""
  with open(path, 'rb') as f:
    data = f.read()
  try:
    with h5py.File(io.BytesIO(data), 'r') as h:
      return {k: np.array(v) for k, v in h.items()}
  except Exception:  # pylint: disable=broad-except
    return None


class Campaign:
  """All incarnations of one data generation job."""

  def __init__(self, ctx, root, cycles=None, steps=None):
    w = self.w = ctx.w
    self.ctx, self.root = ctx, root
    self.cycles, self.steps = cycles or w['cycles'], steps or w['steps']
    self.inc = 0

  def run(self):
    """One incarnation; returns (outcome, error)."""
    w = self.w
    m = datagen
    put = dict(RESOLUTION=w['grid'], ORDER=w['order'], NUM_CYCLES=self.cycles,
               NUM_STEPS_PER_CYCLE=self.steps, DT=w['dt'])
    saved = {k: getattr(m, k) for k in put}
    create = navier_stokes.StokesSEM.create
    fs = simfs.SimFS(self.ctx, self.root, inc=self.inc)
    fs.write_chunk = w['chunk']
    self.fs = fs
    k = w['clocks'][self.inc % len(w['clocks'])]
    solo = hosts.Solo(0, 1, start=k['start'], rate=k['rate'])
    F = flags.FLAGS
    if not F.is_parsed():
      F.mark_as_parsed()
    old = F.workdir
    F.workdir = os.path.join(self.root, 'out')
    with simfs.bypass():
      os.makedirs(F.workdir, exist_ok=True)
    self.inc += 1
    try:
      for n, v in put.items():
        setattr(m, n, v)
      if not w['real']:
        mesh = mesh_of(w['grid'], w['order'])
        navier_stokes.StokesSEM.create = staticmethod(
            lambda *a, **kk: FakeSem(mesh, None))
      with simfs.mounted(fs), solo:
        try:
          m.run_simulation()
          return 'done', None
        except SimCrash:
          return 'killed', None
        except OSError as e:
          if '(simulated)' not in str(e):
            raise
          return 'failed', e
        except Exception as e:
          x = e
          while x is not None:
            if isinstance(x, OSError) and '(simulated)' in str(x):
              return 'failed', e
            x = x.__cause__ or x.__context__
          raise
    finally:
      fs.kill()
      navier_stokes.StokesSEM.create = create
      for n, v in saved.items():
        setattr(m, n, v)
      F.workdir = old
      self.ctx.stats.sim_time += abs(solo.now - k['start'])

  def files(self):
    """{(first, last): content or None} of the files under final names."""
    out = {}
    d = os.path.join(self.root, 'out')
    for n in sorted(os.listdir(d)):
      m = NAME.match(n)
      if m:
        a, b = int(m.group(3)), int(m.group(4))
        check((int(m.group(1)), int(m.group(2))) == (
            self.w['grid'], self.w['order']), 'names', f'file {n}')
        out[a, b] = read_file(os.path.join(d, n))
    return out


_refs = collections.OrderedDict()


def reference(w, cycles, steps):
  """Files of an undisturbed run."""
  key = json.dumps([w['grid'], w['order'], w['real'], w['dt'], w['x64'], cycles,
                    steps])
  if key not in _refs:
    if len(_refs) > 8:
      _refs.popitem(last=False)
    ctx = Context(dict(workload=dict(w, chunk=1 << 30), sched={'fifo': True},
                       faults=[]))
    root = tempfile.mkdtemp(prefix='ref-', dir=os.environ.get('DST_SCRATCH'))
    try:
      c = Campaign(ctx, root, cycles, steps)
      c.run()
      _refs[key] = c.files(), dict(c.fs.counted), c.fs.n
    finally:
      shutil.rmtree(root, ignore_errors=True)
  return _refs[key]


def leave(w, ref, job):
  """What earlier jobs left: {key: bytes}."""
  if not w['stale'] or w['real']:
    return {}
  other = (reference(dict(w, dt=3 * w['dt']), w['cycles'], w['steps'])[0]
           if w['stale'] == 'other' else ref)
  r = np.random.RandomState(len(ref))
  left = {}
  for k in sorted(ref):
    if r.uniform() > w['stale_part']:
      continue
    bio = io.BytesIO()
    with h5py.File(bio, 'w') as h:
      for name in ('u', 'p', 't'):
        h[name] = other[k][name]
    data = bio.getvalue()
    if w['stale'] == 'zeros':
      data = bytes(len(data))
    elif w['stale'] == 'longer':
      data = data + bytes(1000)
    path = os.path.join(job.root, 'out', f'kolmogorov_flow_grid_{w["grid"]}_order_'
                        f'{w["order"]}_step_{k[0]}_{k[1]}.hdf5')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
      f.write(data)
    left[k] = path, data
  return left


def untouched(left, k):
  """Whether a file is still what an earlier job left."""
  if k not in left:
    return False
  with open(left[k][0], 'rb') as f:
    return f.read() == left[k][1]


def close(a, b, tol):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  if a.shape != b.shape:
    return False
  s = np.abs(b).max() if b.size else 0
  return bool(np.allclose(a, b, rtol=tol, atol=tol * s + 1e-12))


def check_complete(ctx, w, files, cycles, steps):
  """The chain of files of a run that ended."""
  want = [(i * steps, (i + 1) * steps) for i in range(cycles)]
  check(sorted(files) == want, 'names', lambda: (
      f'files cover steps {sorted(files)}, should be {want}'))
  one = reference(w, 1, cycles * steps)[0]
  check(list(one) == [(0, cycles * steps)] and one[0, cycles * steps] is not None,
        'names', lambda: f'one cycle writes {list(one)}')
  one = one[0, cycles * steps]
  prev = None
  for a, b in want:
    d = files[a, b]
    check(d is not None, 'unreadable', f'the file of steps {a} to {b}')
    check(set(d) == {'u', 'p', 't'}, 'fields', lambda: f'{sorted(d)}')
    n = steps // EVERY + 1
    check(all(len(v) == n for v in d.values()), 'records', lambda: (
        f'the file of steps {a} to {b} holds '
        f'{ {k: len(v) for k, v in d.items()} } records, should {n}'))
    times = (a + EVERY * np.arange(n)) * w['dt']
    check(np.allclose(d['t'], times, rtol=1e-9, atol=1e-12), 'times', lambda: (
        f'times {d["t"][:3].tolist()}.. in the file of steps {a} to {b}'))
    if prev is not None:
      for k in 'utp':
        same = (np.array_equal(prev[k][-1], d[k][0]) if k != 't' else
                abs(prev[k][-1] - d[k][0]) <= 1e-12 + 1e-9 * abs(d[k][0]))
        check(same, 'chain', lambda: (
            f'{k} at step {a} differs between the file that ends there and the '
            'file that starts there'))
    i = a // EVERY
    for k in 'up':
      check(close(d[k], one[k][i:i + n],
                  1e-9 if w['x64'] and not w['real'] else 1e-4), 'trajectory', lambda: (
          f'{k} of steps {a} to {b} differs from a run in one cycle: '
          f'{np.abs(d[k] - one[k][i:i + n]).max(axis=tuple(range(1, d[k].ndim))).tolist()}'))
    prev = d
  moving = np.abs(np.diff(one['u'], axis=0)).max()
  check(w['real'] or moving > 1e-4, 'trajectory', 'the recorded state does '
        'not change')


def same_content(a, b):
  return (set(a) == set(b)
          and all(a[k].shape == b[k].shape and a[k].dtype == b[k].dtype
                  and np.array_equal(a[k], b[k]) for k in a))


def run(prop, ctx):
  w = ctx.w
  cycles, steps = w['cycles'], w['steps']
  ref, counted, nops = reference(w, cycles, steps)
  for f in ctx.faults:
    if 'op' not in f:
      total = nops if f['of'] is None else counted.get(f['of'], 1)
      if w['chunk'] < 1 << 30 and f['of'] == 'write':
        size = sum(v.nbytes for d in ref.values() if d for v in d.values())
        total = max(total, size // w['chunk'])
      f['op'] = int(f['part'] * total)
  root = tempfile.mkdtemp(prefix='gen-', dir=os.environ.get('DST_SCRATCH'))
  try:
    simulate(prop, ctx, Campaign(ctx, root), ref)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def simulate(prop, ctx, job, ref):
  w = ctx.w
  cycles, steps = w['cycles'], w['steps']
  check_complete(ctx, w, ref, cycles, steps)
  left = leave(w, ref, job)
  if left:
    ctx.stats.probe('left_by_other_job')
  limit = 2 + len(ctx.faults)
  complete = {}
  while True:
    check(job.inc < limit, 'no-progress', f'not done after {job.inc} starts')
    outcome, err = job.run()
    ctx.stats.event('incarnation', job.inc, outcome)
    files = job.files()
    noticed = job.fs.hits
    if outcome != 'done':
      # those that this job has not come to do not count
      files = {k: d for k, d in files.items() if not untouched(left, k)}
    if outcome == 'done':
      # a fault that the code was told of must not end in success unless
      # nothing is missing
      bad = [k for k in ref if k not in files or files[k] is None]
      check(not bad, 'swallowed-error', lambda: (
          f'the run ends without an error although the files {bad} are '
          'missing or incomplete'))
    else:
      check(noticed, 'spurious-error', lambda: f'{outcome}: {err}')
    for k, d in sorted(files.items()):
      if d is None:
        continue
      check(k in ref, 'names', lambda: f'file for steps {k}')
      check(same_content(d, ref[k]), 'wrong-content', lambda: (
          f'after the run was {outcome}, the file of steps {k} can be read '
          'and holds something else than was computed'))
    gone = [k for k in complete if files.get(k) is None]
    check(len(gone) <= 1, 'lost-file', lambda: (
        f'files {gone} were complete before the run {outcome}'))
    # of the files begun in this run only the last may be incomplete
    begun = []
    for path in job.fs.begun:
      m = NAME.match(os.path.basename(path))
      if m and (int(m.group(3)), int(m.group(4))) not in begun:
        begun.append((int(m.group(3)), int(m.group(4))))
    broken = [k for k in begun[:-1] if files.get(k) is None]
    check(not broken, 'went-on', lambda: (
        f'the run went on to the file of steps {begun[-1]} although {broken} '
        'could not be written'))
    check(all(k in ref for k in begun) and begun == sorted(begun), 'names',
          lambda: f'files of steps {begun} were begun')
    if begun:
      skipped = [k for k in sorted(ref) if k < begun[-1] and k not in files]
      check(not skipped, 'went-on', lambda: f'files {skipped} were skipped')
    complete = {k for k, d in files.items() if d is not None}
    if outcome == 'done':
      break
    ctx.stats.count('restarts')
    ctx.stats.probe(outcome)
  files = job.files()
  check(set(files) == set(ref), 'names', lambda: f'{sorted(files)}')
  if w['rerun']:
    job.inc += 10
    outcome, _ = job.run()
    files = job.files()
    for k in ref:
      check(files.get(k) is not None and same_content(files[k], ref[k]),
            'rerun', lambda: f'a second run changes the file of steps {k}')
    ctx.stats.probe('rerun')
  ctx.stats.count('files', len(files))
  if w['real']:
    ctx.stats.probe('real_solver')
  ctx.nontrivial = cycles > 1 or job.inc > 1


def shrink(w):
  for key, small in (('cycles', 1), ('steps', EVERY), ('grid', 1), ('order', 1),
                     ('rerun', False), ('stale', None), ('x64', False)):
    if w[key] != small and not w['real']:
      yield {**w, key: small}
