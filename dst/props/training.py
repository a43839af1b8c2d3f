"""C14, C15, C16, C23: simulated training jobs."""
import concurrent.futures
import hashlib
import json
import os
import shutil
import tempfile
import types

import jax
import jax.numpy as jnp
import numpy as np

from dst import hosts, simfs
from dst import plan as planlib
from dst.core import (Context, HarnessError, SimDispatchError, StubMissing,
                      Violation, check)

import flax
from flax import io as fio
from flax import serialization
from flax.training import checkpoints
import ml_collections
import tensorflow_datasets as tfds
from clu import metric_writers, periodic_actions

from swirl_fem.common import premesh_commons
from swirl_fem.core.interpolation import Nodes1D, NodeType
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.navier_stokes import navier_stokes
from swirl_fem.niles import input_pipeline, train

flax.config.update('flax_use_orbax_checkpointing', False)
fio.set_mode(fio.BackendMode.DEFAULT)
# how flax names these two, bound at its import
checkpoints.process_index = jax.process_index
checkpoints.sync_global_devices = hosts._sync
fio.NotFoundError = FileNotFoundError



class _InlineExecutor:
  """Reads checkpoint chunks in the calling process instead of a thread."""

  def __init__(self, *a, **k):
    pass

  def map(self, fn, *its):
    return [fn(*a) for a in zip(*its)]

  def submit(self, fn, *a, **k):
    f = concurrent.futures.Future()
    try:
      f.set_result(fn(*a, **k))
    except Exception as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f

  def shutdown(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass


checkpoints.thread = types.SimpleNamespace(ThreadPoolExecutor=_InlineExecutor)

MESH = refine_premesh(
    premesh_commons.unit_cube_mesh(2, periodic_dims=(0, 1)),
    gridpoints_1d=Nodes1D.create(
        num_points=2, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE)).finalize()
E, K, N = MESH.num_elements, MESH.num_nodes_per_element, MESH.num_nodes
C = 2 * K
_job = None          # the job being simulated


# -- stubs ---------------------------------------------------------------------
class FakeSpace:
  mesh = MESH
  interior_mask = np.ones((N, 1), np.float32)
  local_shape = (E, K, MESH.ndim)

  @property
  def vspace(self):
    return self

  @property
  def pspace(self):
    return self

  def gather(self, u):
    return u[MESH.elements]

  def scatter(self, f):
    return jnp.zeros((N,) + f.shape[2:], f.dtype).at[MESH.elements].add(f)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'StokesSEM.velocity.{name}')


class FakeSem:
  """Stands in for the flow solver: cheap, smooth and deterministic."""
  velocity = FakeSpace()
  pressure = FakeSpace()

  def C(self, u):
    return 0.1 * u * u

  def B(self, f):
    return 0.5 * f

  def stokes_one_step(self, us, ps, f, mu, dt, alpha=0., time_order=2, tol=0.,
                      atol=0., u_boundary=None, pressure_preconditioner=None,
                      project_out_nullspace=True):
    u = us[-1] + dt * (f + mu * (us[-2] - us[-1]))
    p = ps[-1] + dt * (u[..., 0] - u[..., 1])
    return u, p, {k: {'residual': jnp.zeros((), u.dtype),
                      'num_iterations': jnp.ones((), jnp.int32)}
                  for k in ('u_star_info', 'dp_info')}

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'StokesSEM.{name}')


class TinyModel:
  """Stands in for the transformer."""
  dtype = jnp.float32

  def __init__(self, noise, probe):
    self.noise, self.probe = noise, probe

  def init(self, rngs, x, *a, **k):
    key = rngs['params'] if isinstance(rngs, dict) else rngs
    k1, k2 = jax.random.split(key)
    return {'params': {'w': 0.1 * jax.random.normal(k1, (C, C), self.dtype),
                       'b': 0.1 * jax.random.normal(k2, (C,), self.dtype)}}

  def apply(self, variables, inputs, *, z_rng, train, rngs=None):
    p = variables['params']
    out = jnp.tanh(inputs @ p['w'] + p['b'])
    n = inputs.shape[0]
    kl = jnp.abs(p['b']).sum() * jnp.ones(n, self.dtype)
    if self.noise:
      z = jax.random.normal(z_rng, out.shape, self.dtype)
      out = out * (1 + 0.1 * z)
      kl = kl + jnp.square(z).mean(axis=(1, 2))
      if train:
        keep = jax.random.bernoulli(rngs['dropout'], 0.9, out.shape)
        out = jnp.where(keep, out, 0)
    if self.probe:
      keys = [jax.random.key_data(z_rng) if jnp.issubdtype(
          z_rng.dtype, jax.dtypes.prng_key) else z_rng]
      if train:
        keys.append(rngs['dropout'])
      kl = planlib.probe(kl, *keys, tag='train' if train else 'eval')
    aux = {'kl_q0': kl, 'kl_path': 0.5 * kl,
           'z0_means': out.mean(axis=(1, 2)), 'z1_means': out[:, 0, 0],
           'z1_stds': out.std(axis=(1, 2))}
    return out, aux

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'model.{name}')


class FakeTensor:
  """What the input pipeline yields: a tensor that becomes a numpy array."""

  def __init__(self, a):
    self.a = a
    self.shape, self.dtype = a.shape, a.dtype

  def numpy(self):
    return self.a

  _numpy = numpy

  def __array__(self, dtype=None, copy=None):
    return np.asarray(self.a, dtype=dtype)


def example(seed, ident, train_split, window):
  """One window of the data set; `t` holds its identity."""
  r = np.random.RandomState((seed * 1000003 + ident * 7919 + train_split) % 2**31)
  real = np.float64 if jax.config.jax_enable_x64 else np.float32
  # examples of very different size tell a mean of gradients from other means
  size = 1.0
  if jax.config.jax_enable_x64 and seed % 2:
    size = 10 ** r.uniform(-1, 3)
  return {'u': (size * r.normal(size=(window, N, 2))).astype(real),
          'p': (size * r.normal(size=(window, N))).astype(real),
          't': np.full((window,), ident, real)}


class FakeDataset:

  def __init__(self, host, batch_size, train_split, cfg):
    self.host, self.batch, self.train = host, batch_size, train_split
    self.cfg = cfg

  def _raw(self, k):
    job = _job
    w = (self.cfg.train_window_size if self.train
         else self.cfg.eval_window_size)
    idx = (k + job.offset) if self.train else k
    first = (idx * self.host.cluster.nhosts + self.host.index) * self.batch
    xs = [example(job.w['data'], first + j, self.train, w)
          for j in range(self.batch)]
    return {key: np.stack([x[key] for x in xs]) for key in xs[0]}

  def __iter__(self):
    k = 0
    while True:
      self.host.pause(what='the input pipeline')
      yield {n: FakeTensor(v) for n, v in self._raw(k).items()}
      k += 1

  def as_numpy_iterator(self):
    for b in self:
      yield {n: v.a for n, v in b.items()}

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'dataset.{name}')


class Writer:
  """Records what is reported."""

  def __init__(self, host, silent):
    self.host, self.silent = host, silent

  def write_scalars(self, step, scalars):
    _job.reports.append(dict(
        inc=_job.inc, host=self.host.index, silent=self.silent, step=int(step),
        values={k: float(np.asarray(v)) for k, v in scalars.items()},
        ntrain=_job.ntrain[self.host.index], neval=_job.neval[self.host.index]))

  def write_hparams(self, *a, **k):
    pass

  def flush(self):
    _job.flushes.append((_job.inc, self.host.index, len(_job.reports)))

  def close(self):
    pass

  write_summaries = write_images = write_videos = write_audios = write_hparams
  write_texts = write_histograms = write_pointcloud = write_hparams

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise StubMissing(f'writer.{name}')


def _create_writer(logdir=None, *, just_logging=False, **kw):
  return Writer(hosts.host(), bool(just_logging))


class Profile:

  def __init__(self, *a, **k):
    pass

  def __call__(self, step, t=None):
    return False


def _create_split(batch_size, train, config):
  h = hosts.host()
  check(batch_size == _job.w['batch'] // _job.w['hosts'], 'batch-size',
        lambda: f'a host asks for batches of {batch_size}, should be '
        f'{_job.w["batch"] // _job.w["hosts"]}')
  return FakeDataset(h, batch_size, bool(train), config)


_real_save = {}


def _observed_save(name):
  real = _real_save[name] = getattr(checkpoints, name)

  def f(ckpt_dir, target, step, *a, **k):
    h = hosts.host()
    if h is None:
      return real(ckpt_dir, target, step, *a, **k)
    _job.saves.append((_job.inc, h.index, int(step), 'begin',
                       _job.ntrain[h.index]))
    r = real(ckpt_dir, target, step, *a, **k)
    _job.saves.append((_job.inc, h.index, int(step), 'end',
                       _job.ntrain[h.index]))
    return r
  setattr(checkpoints, name, f)


for _n in ('save_checkpoint', 'save_checkpoint_multiprocess'):
  _observed_save(_n)
metric_writers.create_default_writer = _create_writer
periodic_actions.Profile = Profile


class patched:
  """Stubs in place of the parts that are not simulated."""

  def __init__(self, w):
    self.w = w

  def __enter__(self):
    w = self.w
    self.saved = []

    def put(obj, name, value):
      self.saved.append((obj, name, getattr(obj, name)))
      setattr(obj, name, value)
    put(navier_stokes.StokesSEM, 'create',
        staticmethod(lambda *a, **k: FakeSem()))
    put(train, 'create_model',
        lambda *a, **k: TinyModel(w['noise'], w['probe']))
    put(input_pipeline, 'create_split', _create_split)
    put(input_pipeline, 'NUM_SPLIT_EXAMPLES', {
        tfds.Split.TRAIN: w['epoch'] * w['batch'] + w['window'] - 1,
        tfds.Split.VALIDATION: validation_examples(w)})
    return self

  def __exit__(self, *a):
    for obj, name, v in reversed(self.saved):
      setattr(obj, name, v)


def config_of(w):
  c = ml_collections.ConfigDict(dict(
      batch_size=w['batch'], debug=False, num_steps=w['solver_steps'],
      eval_num_steps=w['eval_solver_steps'], permute_elements=False,
      num_pushforward_steps=w['solver_steps'] - 1, model_name='tiny', model={},
      window_step=1, dataset='kolmogorov_flow', ndim=2, element_grid_size=2,
      order=1, resolution=2, time_order=w['time_order'], drag_coeff=0.04,
      reynolds_number=100., dt=0.05, alpha=0., num_nodes=N, num_elements=E,
      num_channels=C, train_window_size=w['window'], train_window_stride=1,
      eval_window_size=w['eval_solver_steps'] + w['time_order'],
      eval_window_stride=1, num_epochs=w['epochs'], learning_rate=w['lr'],
      grad_clip_norm=w['clip'], weight_decay=0.05,
      warmup_epochs=1., kl_penalty=0.01, kl_transition_epochs=2.,
      kl_zero_epochs=0, log_every_steps=w['log_every'],
      checkpoint_epochs=w['ckpt_every'] / w['epoch'],
      eval_every_epochs=w['eval_every'] / w['epoch'], cache=True,
      num_train_steps=w['num_train_steps'], steps_per_eval=w['eval_batches']))
  return ml_collections.FrozenConfigDict(c)


def validation_examples(w):
  return 3 * w['batch'] + w['eval_solver_steps'] + w['time_order'] - 2


def total_steps(w):
  return (w['num_train_steps'] if w['num_train_steps'] > 0
          else int(w['epoch'] * w['epochs']))


# -- generation ------------------------------------------------------------------
def gen(prop, c, rng, tier):
  H = c.weighted([(1, 3), (2, 4), (3, 2)])
  D = c.weighted([(1, 2), (2, 3), (3, 1), (4, 2)] if H < 3 else [(1, 2), (2, 3)])
  if prop in ('C15', 'C16') and H * D == 1:
    D = 2
  per = c.int(1, 3)
  T = c.int(2, 3)
  S = c.int(1, 2)
  epoch = c.int(4, 8)
  w = dict(hosts=H, local=D, batch=H * D * per, time_order=T, solver_steps=S,
           eval_solver_steps=c.int(1, 2), window=S + T, epoch=epoch,
           lr=c.choice([0.5, 5.0]), clip=c.choice([None, 0.01, 1.0]),
           x64=c.chance(0.6), noise=prop != 'C16', probe=prop == 'C15', data=c.getrandbits(20),
           fixed_order=True)
  if c.chance(0.5):
    w['num_train_steps'], w['epochs'] = c.int(3, 12), 5.
  else:
    w['num_train_steps'], w['epochs'] = -1, c.choice([1., 1.5, 2.])
  n = total_steps(w)
  # cadences may differ from run to run: they must not matter
  r = rng if prop in ('C15', 'C23') else c
  w.update(log_every=r.weighted([(None, 1), (r.int(1, 5), 6)]),
           ckpt_every=r.int(1, max(1, min(n, 6))),
           eval_every=r.int(1, max(1, min(n, 6))),
           eval_batches=r.weighted([(1, 3), (2, 2), (3, 1), (-1, 1)]))
  if prop in ('C14', 'C16') and c.chance(0.5):
    w['eval_every'] = 50
  if prop == 'C23' and w['log_every'] is None and rng.chance(0.7):
    w['log_every'] = 2
  w['rerun'] = rng.chance(0.3)
  # a shorter job, perhaps with other checkpoints, that this one continues
  w['sessions'] = []
  if n > 1 and prop != 'C16' and rng.chance(0.4):
    for k in sorted({rng.int(1, n - 1) for _ in range(rng.int(1, 2))}):
      w['sessions'].append([k, rng.choice([w['ckpt_every'], rng.int(1, 6)])])
  w['tick'] = rng.choice([1e-4, 1e-3, 1.0])
  w['skew'] = [rng.choice([0.0, 0.0, -3600.0, 1e6, 0.5]) for _ in range(H)]
  w['chunk'] = rng.choice([64, 512, 4096])
  faults = []
  ninc = 0
  if prop in ('C14', 'C15') or rng.chance(0.25):
    for _ in range(rng.weighted([(0, 1), (1, 5), (2, 3), (3, 2), (5, 1)])):
      what = rng.weighted([('kill', 4), ('disk', 5), ('device', 1), ('oom', 1)])
      if what == 'kill':
        faults.append(dict(kind='kill', inc=ninc, frac=rng.random()))
      elif what == 'disk':
        k = rng.weighted([('torn', 4), ('kill_before', 2), ('kill_after', 2),
                          ('eio', 2), ('enospc', 2)])
        f = dict(kind='disk', inc=ninc, what=k, part=rng.random(),
                 frac=rng.choice([0.0, 0.3, 0.5, 0.9, 0.999]))
        f['of'] = rng.weighted([('write', 5), ('rename', 3), ('open_w', 2),
                                (None, 3)])
        faults.append(f)
      elif what == 'device':
        faults.append(dict(kind='device_crash', inc=ninc,
                           dispatch=rng.randrange(max(1, 2 * n)),
                           device=rng.randrange(H * D), at=rng.randrange(4)))
      else:
        faults.append(dict(kind='dispatch_oom', inc=ninc, host=rng.randrange(H),
                           dispatch=rng.randrange(max(1, 2 * n))))
      ninc += 1
    # more than one incarnation: later fractions are of what is left
  if rng.chance(0.5):
    for _ in range(rng.int(1, 4)):
      faults.append(dict(kind='disk', inc=rng.int(0, ninc), what='short',
                         part=rng.random(), frac=rng.choice([0.01, 0.5]),
                         of=rng.choice(['write', 'read'])))
  if rng.chance(0.6):
    for _ in range(rng.int(1, 4)):
      faults.append(dict(kind='clock_jump', host=rng.randrange(H),
                         at=rng.randrange(0, 8),
                         delta=rng.choice([-1e5, -3600., -1., 0.25, 60., 1e7,
                                           'repeat'])))
  for _ in range(rng.int(0, 3)):
    k = rng.choice(['stall', 'delay', 'drop', 'dup'])
    f = dict(kind=k, inc=rng.int(0, ninc), dispatch=rng.randrange(max(1, n)))
    if k == 'stall':
      f.update(device=rng.randrange(H * D), at=rng.randrange(3),
               ticks=rng.choice([50, 1000]))
    else:
      f.update(msg=rng.randrange(20), times=2, ticks=rng.choice([20, 800]))
    faults.append(f)
  return {'workload': w, 'sched': schedule(rng), 'faults': faults}


def schedule(rng):
  if rng.chance(0.08):
    return {'fifo': True}
  return {'seed': rng.getrandbits(48), 'wild': rng.choice([0.2, 0.6, 1.0])}


# -- one job ---------------------------------------------------------------------
def digest_of(state, k=None):
  """Hash of step, parameters and optimiser state (of replica k)."""
  h = hashlib.sha256()
  for part in (state.step, state.params, state.opt_state):
    for leaf in jax.tree_util.tree_leaves(part):
      a = np.asarray(leaf)
      a = np.ascontiguousarray(a if k is None else a[k])
      if a.dtype.kind in 'iu':
        a = a.astype(np.int64)
      h.update(str(a.shape).encode())
      h.update(a.tobytes())
  return h.hexdigest()[:20]


class Job:
  """All incarnations of one training job."""

  def __init__(self, ctx, root):
    self.ctx, self.w, self.root = ctx, ctx.w, root
    self.workdir = os.path.join(root, 'work')
    self.inc = 0
    self.session = 0
    self.configs = []      # of every incarnation
    self.outcomes = []
    self.offset = 0
    self.base = 0.0
    self.calls = []        # every mapped call that completed, on every host
    self.reports, self.flushes, self.saves = [], [], []
    self.nsteps = self.nops = 0
    self.op_counts = {}

  def config(self):
    """The workload with the configuration of the next incarnation."""
    s = self.w.get('sessions', [])
    if self.session >= len(s):
      return self.w
    return dict(self.w, num_train_steps=s[self.session][0],
                ckpt_every=s[self.session][1])

  def observe(self, h, n, fun, args, kwargs, out):
    """Records a completed mapped call."""
    is_state = lambda s: hasattr(s, 'params') and hasattr(s, 'opt_state')
    vals = list(args) + list(kwargs.values())
    st = [a for a in vals if is_state(a)]
    if not st:
      return
    batch = [a for a in vals if isinstance(a, dict) and 'u' in a]
    check(len(batch) == 1, 'batch', 'a step without a batch')
    kind = 'train' if isinstance(out, tuple) and is_state(out[0]) else 'eval'
    rec = dict(inc=self.inc, host=h.index, n=n, kind=kind, fun=fun, args=args,
               kwargs=kwargs, state=st[0], batch=batch[0],
               metrics=out[1] if kind == 'train' else out,
               out=out[0] if kind == 'train' else None)
    if kind == 'train':
      self.ntrain[h.index] += 1
    else:
      self.neval[h.index] += 1
    rec['after_train'] = self.ntrain[h.index]
    self.calls.append(rec)

  def run(self, extra=None):
    """One incarnation; returns (outcome, cluster)."""
    global _job
    _job = self
    w = self.w
    cl = hosts.Cluster(self.ctx, w['hosts'], w['local'], inc=self.inc,
                       base_time=self.base, tick=w['tick'], skew=w['skew'])
    fs = simfs.SimFS(self.ctx, self.root, inc=self.inc,
                     on_crash=lambda: cl.kill('killed at a disk operation'),
                     pause=lambda: hosts.host().pause(what='the disk'))
    fs.write_chunk = w['chunk']
    cl.fs, self.fs = fs, fs
    cl.observer = self.observe
    self.ntrain = [0] * w['hosts']
    self.neval = [0] * w['hosts']
    cfg = config_of(self.config())
    self.configs.append(self.config())
    self.ctx.stats.event('incarnation', self.inc)
    try:
      with patched(w), simfs.mounted(fs):
        outcome = cl.run(lambda h: train.train_and_evaluate(cfg, self.workdir))
    finally:
      _job = None
    self.nsteps, self.nops = cl.steps, fs.n
    self.op_counts = dict(fs.counted)
    self.base += cl.loop.now * w['tick'] + 30.0
    self.ctx.stats.sim_time += cl.loop.now * w['tick']
    self.inc += 1
    self.outcomes.append(outcome)
    return outcome, cl

  def checkpoints(self):
    """Files under their final names: {step: bytes}."""
    out = {}
    if os.path.isdir(self.workdir):
      for n in sorted(os.listdir(self.workdir)):
        head, _, tail = n.partition('checkpoint_')
        if head == '' and tail.isdigit():
          with open(os.path.join(self.workdir, n), 'rb') as f:
            out[int(tail)] = f.read()
    return out

  def listing(self):
    out = {}
    for d, _, fs in os.walk(self.root):
      for n in fs:
        p = os.path.join(d, n)
        with open(p, 'rb') as f:
          out[os.path.relpath(p, self.root)] = hashlib.sha256(
              f.read()).hexdigest()
    return out


def checkpoint_digest(data, template):
  """Digest of the state inside a checkpoint file."""
  d = serialization.msgpack_restore(data)
  st = serialization.from_state_dict(template, d)
  return digest_of(st)


class Reference:
  """A fault-free, in-order run of the same job."""

  def __init__(self, w, **over):
    w = dict(w, **over)
    ctx = Context(dict(workload=w, sched={'fifo': True}, faults=[]))
    root = tempfile.mkdtemp(prefix='ref-', dir=os.environ.get('DST_SCRATCH'))
    try:
      job = Job(ctx, root)
      outcome, cl = job.run()
      if outcome != 'done':
        e = [h.exc for h in cl.hosts if isinstance(h.exc, BaseException)]
        if e:
          raise e[0]
        raise HarnessError(f'reference run ended: {outcome}')
      self.steps, self.ops, self.counted = job.nsteps, job.nops, job.op_counts
      mine = [r for r in job.calls if r['host'] == 0 and r['kind'] == 'train']
      self.start = []
      self.chain = []
      for r in mine:
        self.start.append(int(np.asarray(r['state'].step)[0]))
        self.chain.append(digest_of(r['state'], 0))
      n = total_steps(w)
      if self.start == list(range(n)) and n:
        self.chain.append(digest_of(mine[-1]['out'], 0))
      check(self.start == list(range(n)), 'steps', lambda: (
          f'an undisturbed run of {n} steps applied steps {self.start}'))
      self.template = jax.tree_util.tree_map(
          lambda x: np.asarray(x)[0], mine[0]['state']) if mine else None
      self.keys = key_table(job, cl)
      self.losses = None
    finally:
      shutil.rmtree(root, ignore_errors=True)


def key_table(job, cl):
  """{(phase, device, step, iteration, which): set of keys} of one run."""
  out = {}
  if not job.w['probe']:
    return out
  step_of = {}
  for r in job.calls:
    if r['inc'] == job.inc - 1:
      step_of[r['n']] = (r['kind'], int(np.asarray(r['state'].step)[0]))
  for n, d in cl.dispatches.items():
    if n not in step_of:
      continue
    kind, step = step_of[n]
    count = {}
    for dev, tag, vals in d.probes:
      i = count.get(dev, 0)
      count[dev] = i + 1
      for j, v in enumerate(vals):
        out.setdefault((kind, dev, step, i, 'zd'[j]), set()).add(
            tuple(np.asarray(v).ravel().tolist()))
  return out


_refs = {}


def reference(w, **over):
  key = json.dumps(dict(w, sessions=0, rerun=0, tick=1e-3, skew=0, chunk=0, **over),
                   sort_keys=True)
  if key not in _refs:
    if len(_refs) > 12:
      _refs.clear()
    _refs[key] = Reference(w, sessions=[], rerun=0, tick=1e-3, skew=[0.0] * w['hosts'],
                           chunk=4096, **over)
  return _refs[key]


def place_faults(ctx, ref):
  """Turns fractions of a run into event and operation numbers."""
  for f in ctx.faults:
    if f['kind'] == 'kill' and 'at' not in f:
      f['at'] = 1 + int(f['frac'] * ref.steps)
    if f['kind'] == 'disk' and 'op' not in f:
      total = ref.ops if f['of'] is None else ref.counted.get(f['of'], 1)
      f['op'] = int(f['part'] * total)


def injected(exc):
  """Is this exception the one that a simulated fault raised?"""
  seen = 0
  while exc is not None and seen < 20:
    if isinstance(exc, SimDispatchError):
      return True
    if isinstance(exc, OSError) and '(simulated)' in str(exc):
      return True
    exc = exc.__cause__ or exc.__context__
    seen += 1
  return False


def run(prop, ctx):
  w = ctx.w
  ref = reference(w)
  place_faults(ctx, ref)
  root = tempfile.mkdtemp(prefix='job-', dir=os.environ.get('DST_SCRATCH'))
  try:
    job = Job(ctx, root)
    simulate(prop, ctx, job, ref)
  finally:
    shutil.rmtree(root, ignore_errors=True)
  ctx.nontrivial = len(job.calls) > 0 and (
      w['hosts'] * w['local'] > 1 or job.inc > 1)


def simulate(prop, ctx, job, ref):
  w = ctx.w
  n = total_steps(w)
  sessions = w.get('sessions', [])
  limit = 3 + len(sessions) + len([f for f in ctx.faults if f['kind'] in (
      'kill', 'disk', 'device_crash', 'dispatch_oom')])
  promised = set()
  complete = {}
  keys = {}
  while True:
    check(job.inc < limit, 'no-progress',
          f'training has not ended after {job.inc} starts')
    s0 = max(complete, default=0)
    job.offset = s0
    before = job.listing()
    ncalls = len(job.calls)
    outcome, cl = job.run()
    mine = job.calls[ncalls:]
    if prop == 'C15':
      for k, v in key_table(job, cl).items():
        keys.setdefault(k, set()).update(v)
    for h in cl.hosts:
      if isinstance(h.exc, BaseException) and not injected(h.exc):
        raise h.exc
    goal = total_steps(job.configs[-1])
    resume_checks(ctx, job, ref, mine, s0, outcome, max(goal, s0))
    # the disk
    complete = job.checkpoints()
    for s, data in complete.items():
      try:
        d = checkpoint_digest(data, ref.template)
      except Exception as e:
        raise Violation('torn-checkpoint', f'checkpoint {s} cannot be read '
                        f'({type(e).__name__})') from None
      check(s < len(ref.chain) and d == ref.chain[s], 'wrong-checkpoint',
            f'checkpoint {s} does not hold the state of step {s}')
    for inc, host, s, what, _ in job.saves:
      if what == 'end' and host == 0:
        promised.add(s)
    kept = sorted(promised)[-50:]
    lost = [s for s in kept if s not in complete]
    check(not lost, 'lost-checkpoint',
          f'checkpoints {lost} were reported as written and are gone')
    if outcome == 'done':
      check(goal <= max(complete, default=0), 'no-final-checkpoint',
            f'no checkpoint of the final step {goal}, only of {sorted(complete)}')
      if job.session == len(sessions):
        break
      job.session += 1
      ctx.stats.probe('continued_with_more_steps')
      continue
    ctx.stats.count('restarts')
  if job.inc > 1:
    ctx.stats.probe('restarted')
  check(n == 0 or n in complete, 'no-final-checkpoint',
        f'no checkpoint of the final step {n}, only of {sorted(complete)}')
  for h in cl.hosts:
    st = h.result
    check(st is not None and hasattr(st, 'params'), 'result',
          'training returned no state')
    for k in range(w['local']):
      check(digest_of(st, k) == ref.chain[n], 'final-state', lambda: (
          f'process {h.index} ends with a state (step '
          f'{np.asarray(st.step).tolist()}) other than that of an '
          'uninterrupted run'))
  if prop == 'C14' and w['rerun']:
    before = job.listing()
    ncalls = len(job.calls)
    job.offset = n
    outcome, cl = job.run()
    if outcome == 'done':
      check(len(job.calls) == ncalls, 'rerun',
            'running a finished job again made steps')
      check(job.listing() == before, 'rerun',
            'running a finished job again changed files')
      ctx.stats.probe('rerun')
  if prop == 'C15':
    check_keys(ctx, w, keys, ref)
  if prop == 'C16':
    check_parallel(ctx, job, w)
  if prop == 'C23':
    check_reports(ctx, job, w)


def resume_checks(ctx, job, ref, mine, s0, outcome, n):
  """What every incarnation (up to step n) must have done."""
  w = ctx.w
  last = {}
  for r in mine:
    steps = np.asarray(r['state'].step)
    check((steps == steps[0]).all(), 'replicas', 'devices are at other steps')
    s = int(steps[0])
    if r['kind'] == 'train':
      want = last.get(r['host'], s0 - 1) + 1
      check(s == want, 'steps', lambda: (
          f'process {r["host"]} applied step {s}, the next one is {want} (the '
          f'newest complete checkpoint is {s0})'))
      check(s < n, 'steps', f'step {s} of a run of {n} steps')
      last[r['host']] = s
    for k in range(w['local']):
      check(digest_of(r['state'], k) == ref.chain[s], 'state', lambda: (
          f'process {r["host"]} device {k} enters step {s} in another state '
          f'than an undisturbed run (started from checkpoint {s0})'))
    if r['out'] is not None:
      so = int(np.asarray(r['out'].step)[0])
      check(so == s + 1, 'steps', f'step {s} led to step number {so}')
      for k in range(w['local']):
        check(digest_of(r['out'], k) == ref.chain[s + 1], 'state', lambda: (
            f'process {r["host"]} device {k} leaves step {s} in another state '
            'than an undisturbed run'))
  if outcome == 'done':
    for h in range(w['hosts']):
      check(last.get(h, s0 - 1) == n - 1, 'steps', lambda: (
          f'process {h} ended after step {last.get(h, s0 - 1)} of {n}'))


# -- C15 -------------------------------------------------------------------------
def check_keys(ctx, w, keys, ref):
  check(keys or total_steps(w) == 0, 'keys', 'no random numbers were drawn')
  # one key per (phase, device, step): whatever happened before
  other = reference(w, log_every=None, ckpt_every=3, eval_every=1,
                    eval_batches=2)
  for k, v in keys.items():
    check(len(v) == 1, 'history', lambda: (
        f'{k}: other random numbers after a restart or in another batch'))
    want = other.keys.get(k)
    check(want is None or want == v, 'history', lambda: (
        f'{k}: the random numbers depend on cadence, time or restarts'))
  # different steps, devices, phases draw different streams
  for h in range(w['hosts']):
    seen = {}
    mine = range(h * w['local'], (h + 1) * w['local'])
    for k, v in sorted(keys.items()):
      if k[1] not in mine:
        continue
      for key in v:
        check(key not in seen, 'same-stream', lambda: (
            f'{k} and {seen[key]} (phase, device, step, iteration, use) draw '
            'the same random numbers'))
        seen[key] = k
  ctx.stats.count('keys', len(keys))
  if any(k[0] == 'eval' for k in keys):
    ctx.stats.probe('eval_keys')


# -- C16 -------------------------------------------------------------------------
def check_parallel(ctx, job, w):
  steps = {}
  for r in job.calls:
    steps.setdefault((r['inc'], r['n']), []).append(r)
  nexamples = 0
  oracle = None
  order = sorted(steps)
  picked = {k for k in (order[:1] + order[-1:])}
  for key in order:
    rs = sorted(steps[key], key=lambda r: r['host'])
    if len(rs) != w['hosts']:
      continue
    r0 = rs[0]
    # every example of the global batch, once
    ids = np.concatenate([np.asarray(r['batch']['t'])[..., 0].ravel()
                          for r in rs]).astype(int)
    check(len(ids) == w['batch'], 'batch', lambda: (
        f'a step uses {len(ids)} examples, the global batch has {w["batch"]}'))
    lo = ids.min()
    check(sorted(ids.tolist()) == list(range(lo, lo + w['batch']))
          and lo % w['batch'] == 0, 'batch', lambda: (
              f'a step uses examples {sorted(ids.tolist())}'))
    for r in rs:
      for d in range(w['local']):
        for b, ident in enumerate(np.asarray(r['batch']['t'])[d, :, 0]):
          ex = example(w['data'], int(ident), r['kind'] == 'train',
                       np.asarray(r['batch']['t']).shape[2])
          check(np.array_equal(np.asarray(r['batch']['u'])[d, b], ex['u']) and
                np.array_equal(np.asarray(r['batch']['p'])[d, b], ex['p']),
                'batch', 'the arrays of an example were mixed up')
    nexamples += len(ids)
    digests = {digest_of(r['out'], k) for r in rs for k in range(w['local'])
               } if r0['kind'] == 'train' else {0}
    check(len(digests) == 1, 'replicas', 'replicas differ after a step')
    # metrics are the same everywhere
    for name in r0['metrics']:
      vals = np.concatenate([np.asarray(r['metrics'][name]) for r in rs])
      check(all(np.array_equal(v, vals[0], equal_nan=True) for v in vals),
            'metrics', lambda: f'metric {name} differs between devices')
    if key in picked:
      with patched(w):
        compare_single(ctx, w, rs)
  ctx.stats.count('examples', nexamples)


def compare_single(ctx, w, rs):
  """One device on the union of the batches does the same update."""
  r0 = rs[0]
  tm = jax.tree_util.tree_map
  one = jax.vmap(r0['fun'], axis_name='batch')
  ndev = w['hosts'] * w['local']
  is_state = lambda s: hasattr(s, 'params') and hasattr(s, 'opt_state')

  def place(per_device_batch):
    """Arguments of a call on a single device."""
    def arg(a):
      if is_state(a):
        return tm(lambda x: jnp.asarray(np.asarray(x)[:1]), a)
      if isinstance(a, dict) and 'u' in a:
        return per_device_batch
      return tm(lambda x: jnp.asarray(np.asarray(x)[:1]), a)
    return ([arg(a) for a in r0['args']],
            {k: arg(a) for k, a in r0['kwargs'].items()})

  union = {k: jnp.asarray(np.concatenate(
      [np.asarray(r['batch'][k]).reshape((-1,) + np.asarray(
          r['batch'][k]).shape[2:]) for r in rs]))[None] for k in r0['batch']}
  fn = planlib.REAL_JIT(lambda a, k: one(*a, **k))

  out = fn(*place(union))
  if r0['kind'] == 'train':
    new, _ = out
    for name in ('params', 'opt_state'):
      a = jax.tree_util.tree_leaves(getattr(new, name))
      b = jax.tree_util.tree_leaves(getattr(r0['out'], name))
      before = jax.tree_util.tree_leaves(getattr(r0['state'], name))
      check(len(a) == len(b), 'update', 'another structure')
      for x, y, z in zip(a, b, before):
        x, y = np.asarray(x)[0].astype(np.float64), np.asarray(y)[0]
        z = np.asarray(z)[0]
        scale = np.abs(x - z).max() + 1e-6 * np.abs(x).max() + 1e-9
        check(np.abs(x - y).max() <= 2e-3 * scale, 'update', lambda: (
            f'{name} changes by {(y - z).ravel()[:4].tolist()}, on one device '
            f'with the whole batch by {(x - z).ravel()[:4].tolist()}'))
    ctx.stats.probe('compared_update')
  # metrics: the mean over the devices' own batches
  local = []
  for r in rs:
    for d in range(w['local']):
      b = {k: jnp.asarray(np.asarray(v)[d])[None] for k, v in r['batch'].items()}
      o = fn(*place(b))
      local.append(o[1] if r0['kind'] == 'train' else o)
  assert len(local) == ndev
  for name, v in r0['metrics'].items():
    want = np.mean([np.asarray(m[name])[0] for m in local], axis=0)
    got = np.asarray(v)[0]
    check(np.allclose(got, want, rtol=2e-3, atol=1e-6, equal_nan=True),
          'metrics', lambda: f'{r0["kind"]} metric {name} is {got}, the mean '
          f'over the devices is {want}')


# -- C23 -------------------------------------------------------------------------
def check_reports(ctx, job, w):
  visible = {r['host'] for r in job.reports if not r['silent']}
  check(visible <= {0}, 'writer', lambda: (
      f'processes {sorted(visible)} write reports'))
  nev = w['eval_batches']
  if nev == -1:
    nev = (validation_examples(w) - w['eval_solver_steps'] - w['time_order']
           + 1) // w['batch']
  by = {}
  for r in job.calls:
    by.setdefault((r['inc'], r['host']), []).append(r)
  for (inc, host), calls in sorted(by.items()):
    first = int(np.asarray(calls[0]['state'].step)[0])
    reports = [r for r in job.reports if r['inc'] == inc and r['host'] == host]
    trains = [c for c in calls if c['kind'] == 'train']
    evals = [c for c in calls if c['kind'] == 'eval']
    reached = first + len(trains)
    last = total_steps(job.configs[inc])
    complete = job.outcomes[inc] == 'done'
    # reports of training
    tr = [r for r in reports if any(k.startswith('train_') for k in r['values'])]
    ev = [r for r in reports if any(k.startswith('eval_') for k in r['values'])]
    L = w['log_every']
    want = [s for s in range(first + 1, reached + 1) if L and s % L == 0]
    got = [r['step'] for r in tr]
    check(got == want or (not complete and got == want[:-1]), 'report-steps',
          lambda: f'process {host} reports at steps {got}, should at {want}')
    prev = first
    for r in tr:
      check(first + r['ntrain'] == r['step'], 'report-steps', lambda: (
          f'a report stamped {r["step"]} was made after step '
          f'{first + r["ntrain"]}'))
      part = trains[prev - first:r['step'] - first]
      for name in trains[0]['metrics']:
        m = np.mean([np.asarray(c['metrics'][name])[0] for c in part])
        v = r['values'].get('train_' + name)
        check(v is not None and np.allclose(v, m, rtol=1e-4, atol=1e-7,
                                            equal_nan=True), 'report-values',
              lambda: f'step {r["step"]}: train_{name} is {v}, the mean since '
              f'the last report is {m}')
      prev = r['step']
    # evaluations
    V = w['eval_every']
    due = [s for s in range(first + 1, reached + 1) if s % V == 0]
    at = {}
    for c in evals:
      at.setdefault(first + c['after_train'], []).append(c)
      check(int(np.asarray(c['state'].step)[0]) == first + c['after_train'],
            'eval-state', 'an evaluation used parameters of another step')
    if nev > 0:
      ok = sorted(at) == due or (not complete and sorted(at) == due[:-1])
      check(ok, 'eval-steps', lambda: (
          f'process {host} evaluates after steps {sorted(at)}, should after '
          f'{due}'))
      for s, cs in at.items():
        check(len(cs) == nev or (not complete and s == max(at)), 'eval-batches',
              lambda: f'the evaluation after step {s} used {len(cs)} batches, '
              f'configured are {nev}')
      got = [r['step'] for r in ev]
      check(got == due or (not complete and got in (due[:-1], due)),
            'eval-steps',
            lambda: f'evaluations are reported at {got}, should at {due}')
      for r in ev:
        cs = at[r['step']]
        for name in cs[0]['metrics']:
          m = np.mean([np.asarray(c['metrics'][name])[0] for c in cs])
          v = r['values'].get('eval_' + name)
          check(v is not None and np.allclose(v, m, rtol=1e-4, atol=1e-7,
                                              equal_nan=True), 'eval-values',
                lambda: f'step {r["step"]}: eval_{name} is {v}, the batches '
                f'average {m}')
      if due:
        ctx.stats.probe('evaluated')
    # evaluation batches are consumed in order
    ids = [int(np.asarray(c['batch']['t'])[0, 0, 0]) for c in evals]
    check(ids == sorted(ids) and len(ids) == len(set(ids)), 'eval-batches',
          lambda: f'evaluation batches {ids} repeat or go back')
    # checkpoints
    P = job.configs[inc]['ckpt_every']
    saved = [s for i, h, s, what, _ in job.saves
             if i == inc and h == host and what == 'begin']
    wantc = [s for s in range(first + 1, reached + 1) if s % P == 0 or s == last]
    check(saved == wantc or (not complete and saved == wantc[:-1]),
          'checkpoint-steps', lambda: (
              f'process {host} saves at steps {saved}, should at {wantc}'))
    if tr:
      ctx.stats.probe('reported')
  ctx.stats.count('reports', len(job.reports))


def shrink(w):
  for i in range(len(w.get('sessions', []))):
    yield {**w, 'sessions': w['sessions'][:i] + w['sessions'][i + 1:]}
  for key, small in (('hosts', 1), ('local', 1), ('solver_steps', 1),
                     ('rerun', False), ('eval_every', 50), ('log_every', None),
                     ('eval_batches', 1), ('epochs', 1.0)):
    if w[key] != small:
      x = {**w, key: small}
      if key in ('hosts', 'local'):
        x['batch'] = w['batch'] // w[key]
        x['skew'] = w['skew'][:x['hosts']]
      if key == 'solver_steps':
        x['window'] = 1 + w['time_order']
      yield x
  if w['num_train_steps'] > 1:
    n = w['num_train_steps'] - 1
    yield {**w, 'num_train_steps': n,
           'sessions': [x for x in w.get('sessions', []) if x[0] < n]}
  if any(w['skew']):
    yield {**w, 'skew': [0.0] * w['hosts']}
