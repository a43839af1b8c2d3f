"""C17, C18: the input pipeline on simulated hosts and disks."""
import collections
import os
import random
import shutil
import tempfile

import numpy as np

from dst import hosts, simfs
from dst.core import SimCrash, Violation, check

from absl import flags
import h5py
import ml_collections
import tensorflow as tf
import tensorflow_datasets as tfds
from tensorflow.python.data.util import random_seed as tf_seed

from swirl_fem.niles import input_pipeline

N_FILES = {True: 24, False: 4}
FIRST = {True: 0, False: 24}
_entropy = None
_real_get_seed = tf_seed.get_seed


def _get_seed(seed):
  """Unseeded operations draw from the simulated entropy of the process."""
  if _entropy is not None and seed is None and (
      tf_seed.random_seed.get_seed(None)[0] is None):
    seed = _entropy.getrandbits(40)
  return _real_get_seed(seed)


tf_seed.get_seed = _get_seed


def gen(prop, c, rng, tier):
  H = c.weighted([(1, 2), (2, 4), (3, 3), (4, 2)])
  train = c.chance(0.6)
  debug = c.chance(0.25)
  W = c.int(1, 6)
  stride = c.int(1, 4)
  step = c.weighted([(1, 4), (2, 2), (3, 1)])
  nf = 1 if debug else N_FILES[train]
  extra = c.int(0, 12) if nf > 1 else c.int(10, 60)
  lens = [W + (c.int(0, extra) if c.chance(0.3) else extra)
          for _ in range(N_FILES[train])]
  B = c.int(1, 4)
  w = dict(hosts=H, train=train, debug=debug, window=W, stride=stride,
           step=step, lens=lens, batch=B, cache=c.chance(0.6),
           data=c.getrandbits(30), nodes=c.int(1, 5), passes=c.int(1, 3),
           stored=c.choice(['f8', 'f8', 'f4', 'mixed']))
  actual = len(windows(w))
  # the declared number of snapshots: as many as there are, or fewer
  total = sum(lens[:nf])
  if c.chance(0.3):
    total = max(W, int(total * c.choice([0.4, 0.8, 0.95])))
  while total > W and ((total - W) // stride + 1) % H:
    total -= 1
  w['declared'] = total
  n = (total - W) // stride + 1
  if n % H or min(len(share(w, h)) for h in range(H)) < B or actual < B:
    # too little data for this many hosts and examples
    w.update(hosts=1, batch=1)
    w['declared'] = max(total, W)
  # process histories
  w['starts'] = [dict(pull=rng.random(), t0=rng.choice([0., 1.7e9, 2e9]),
                      entropy=rng.getrandbits(30)) for _ in range(rng.int(1, 2))]
  w['read_chunk'] = rng.choice([1 << 30, 1000, 64])
  faults = []
  nread = 30 * nf
  if prop == 'C17':
    if rng.chance(0.5):
      faults.append(dict(kind='disk', inc=0, what='kill_before',
                         of=rng.choice(['read', 'open_r']),
                         op=rng.randrange(nread)))
    for _ in range(rng.int(0, 3)):
      faults.append(dict(kind='disk', inc=rng.int(0, 2), what='short',
                         of='read', op=rng.randrange(nread),
                         frac=rng.choice([0.01, 0.5, 0.9])))
  else:
    for _ in range(rng.weighted([(1, 5), (2, 2), (3, 1)])):
      what = rng.weighted([('missing', 1), ('truncated', 4), ('bad', 4),
                           ('eio', 4), ('short', 2), ('empty', 1),
                           ('short_field', 2), ('lost_field', 1),
                           ('other_nodes', 0.5 * (nf > 1))])
      f = dict(kind='disk', inc=0, what=what)
      if what in ('short_field', 'lost_field', 'other_nodes'):
        f.update(kind='file', file=rng.randrange(nf), field=rng.choice('utp'),
                 frac=rng.random())
      elif what in ('missing', 'truncated', 'bad', 'empty'):
        f.update(kind='file', file=rng.randrange(nf), frac=rng.random())
      elif what == 'eio':
        f.update(of=rng.choice(['read', 'read', 'open_r']),
                 op=rng.randrange(nread))
      else:
        f.update(of='read', op=rng.randrange(nread), frac=rng.random())
      faults.append(f)
  return {'workload': w, 'sched': {'seed': rng.getrandbits(48), 'wild': 1.0},
          'faults': faults}


def windows(w):
  nf = 1 if w['debug'] else len(w['lens'])
  return [(f, i) for f in range(nf)
          for i in range(0, w['lens'][f] - w['window'] + 1, w['stride'])]


def share(w, host):
  n = (w['declared'] - w['window']) // w['stride'] + 1
  s = n // w['hosts']
  return windows(w)[host * s:(host + 1) * s]


def snapshots(w, f):
  r = np.random.RandomState(w['data'] + f)
  n = w['lens'][f]
  data = {'t': 1000.0 * f + np.arange(n, dtype=np.float64),
          'u': r.normal(size=(n, w['nodes'], 2)),
          'p': r.normal(size=(n, w['nodes']))}
  # what the simulation stores is in single or in double precision
  if w['stored'] == 'f4':
    data = {k: v.astype(np.float32) for k, v in data.items()}
  elif w['stored'] == 'mixed':
    data['u'] = data['u'].astype(np.float32)
  return data


_made = collections.OrderedDict()


def make_files(root, w):
  """The data files (their bytes are cached per data set)."""
  key = (w['data'], tuple(w['lens']), w['nodes'], w['stored'])
  if key not in _made:
    if len(_made) > 3:
      _made.popitem(last=False)
    out = []
    for f in range(len(w['lens'])):
      p = os.path.join(root, 'x')
      with h5py.File(p, 'w') as h:
        for k, v in snapshots(w, f).items():
          h[k] = v
      with open(p, 'rb') as h:
        out.append(h.read())
      os.remove(p)
    _made[key] = out
  names = []
  for f, data in enumerate(_made[key]):
    n = os.path.join(root, f'filtered_dns_shard_{f + FIRST[w["train"]]:02}.hdf5')
    with open(n, 'wb') as h:
      h.write(data)
    names.append(n)
  return names


class Pipeline:

  def __init__(self, ctx, root):
    self.ctx, self.w, self.root = ctx, ctx.w, root
    self.inc = 0
    self.snaps = {}
    w = self.w
    n = w['declared'] * (N_FILES[w['train']] if w['debug'] else 1)
    other = tfds.Split.VALIDATION if w['train'] else tfds.Split.TRAIN
    mine = tfds.Split.TRAIN if w['train'] else tfds.Split.VALIDATION
    self.counts = {mine: n, other: 64}
    self.cfg = ml_collections.FrozenConfigDict(dict(
        debug=w['debug'], window_step=w['step'], cache=w['cache'],
        train_window_size=w['window'] if w['train'] else 3,
        train_window_stride=w['stride'] if w['train'] else 1,
        eval_window_size=3 if w['train'] else w['window'],
        eval_window_stride=1 if w['train'] else w['stride'],
        batch_size=w['batch'] * w['hosts']))

  def start(self, start):
    """Starts the pipeline of every host; {host: iterator}, fault layer."""
    global _entropy
    w = self.w
    fs = simfs.SimFS(self.ctx, self.root, inc=self.inc)
    fs.read_chunk = w['read_chunk']
    if self.inc == 0:
      for f in self.ctx.faults:
        if f['kind'] == 'file' and f['what'] == 'bad':
          p = self.names[f['file']]
          fs.bad[p] = int(f['frac'] * os.path.getsize(p)) if (
              os.path.exists(p)) else 0
    self.inc += 1
    self.fs = fs
    procs = [hosts.Solo(h, w['hosts'], start=start['t0'] + h)
             for h in range(w['hosts'])]
    its = {}
    _entropy = random.Random(start['entropy'])
    np.random.seed(start['entropy'] % 2**32)
    random.seed(start['entropy'])
    order = list(range(w['hosts']))
    with simfs.mounted(fs):
      while order:
        h = order.pop(self.ctx.choices.pick(len(order)))
        with procs[h]:
          ds = input_pipeline.create_split(
              batch_size=w['batch'], train=w['train'], config=self.cfg)
          its[h] = iter(ds)
    return its, procs

  def pull(self, its, procs, counts):
    """Takes counts[h] batches from every host, interleaved by the schedule."""
    out = {h: [] for h in its}
    with simfs.mounted(self.fs):
      live = [h for h in sorted(its) if counts[h] > 0]
      while live:
        h = live[self.ctx.choices.pick(len(live))]
        with procs[h]:
          try:
            b = next(its[h])
          except StopIteration:
            raise Violation('stream-ends', f'the stream of host {h} ended '
                            f'after {len(out[h])} batches') from None
        b = {k: np.asarray(v) for k, v in b.items()}
        out[h].append(self.identify(h, b))
        self.ctx.stats.event('batch', h, out[h][-1])
        if len(out[h]) == counts[h]:
          live.remove(h)
    return out

  def identify(self, h, b):
    """Which windows a batch holds; checks their content."""
    w = self.w
    check(set(b) == {'u', 'p', 't'}, 'fields', lambda: f'fields {sorted(b)}')
    check(all(v.shape[0] == w['batch'] for v in b.values()), 'batch-size',
          lambda: f'batches of {[v.shape[0] for v in b.values()]} examples')
    ids = []
    for j in range(w['batch']):
      t0 = float(b['t'][j].ravel()[0])
      f, i = int(t0 // 1000), int(t0 % 1000)
      ok = 0 <= f < len(w['lens']) and t0 == 1000.0 * f + i
      if ok:
        if f not in self.snaps:
          self.snaps[f] = snapshots(w, f)
        for k in 'tup':
          want = self.snaps[f][k][i:i + w['window']]
          full = len(want) == w['window']
          want = want[::w['step']]
          check(full and b[k][j].shape == want.shape and np.array_equal(
              b[k][j], want), 'window-content', lambda: (
                  f'host {h}: the {k} of a window that starts at step {i} of '
                  f'file {f} is not that span (times {b["t"][j].tolist()})'))
      check(ok, 'window-content', lambda: f'host {h}: a window at time {t0}')
      ids.append((f, i))
    return ids


def rewrite(path, f):
  """A data file whose fields are not those of one simulation."""
  try:
    with h5py.File(path, 'r') as h:
      data = {k: np.array(v) for k, v in h.items()}
  except OSError:
    return           # damaged already
  k = f['field'] if f['field'] in data else sorted(data)[0]
  a = data.pop(k)
  if f['what'] == 'short_field':
    data[k] = a[:int(f['frac'] * len(a))]
  elif f['what'] == 'other_nodes':
    data[k] = np.stack([a] * 2, axis=1)
  with h5py.File(path, 'w') as h:
    for k, a in data.items():
      h[k] = a


def fault_free_counts(w):
  nb = {h: len(share(w, h)) // w['batch'] for h in range(w['hosts'])}
  return nb, {h: nb[h] * w['passes'] + (1 if nb[h] else 0) for h in nb}


def check_streams(ctx, w, streams, nb):
  used = {}
  for h, bs in sorted(streams.items()):
    mine = set(share(w, h))
    for s in range(0, len(bs), nb[h]):
      part = [i for b in bs[s:s + nb[h]] for i in b]
      check(len(set(part)) == len(part), 'window-twice', lambda: (
          f'host {h} yields a window twice in pass {s // nb[h]}'))
      bad = [i for i in part if i not in mine]
      check(not bad, 'share', lambda: (
          f'host {h} yields windows {bad[:3]}, its share is '
          f'{sorted(mine)[:1]} to {sorted(mine)[-1:]}'))
    for i in {i for b in bs for i in b}:
      check(used.setdefault(i, h) == h, 'share', lambda: (
          f'window {i} is yielded by hosts {h} and {used[i]}'))
  ctx.stats.count('batches', sum(map(len, streams.values())))


def run(prop, ctx):
  w = ctx.w
  root = tempfile.mkdtemp(prefix='data-', dir=os.environ.get('DST_SCRATCH'))
  global _entropy
  saved = dict(input_pipeline.NUM_SPLIT_EXAMPLES)
  F = flags.FLAGS
  if not F.is_parsed():
    F.mark_as_parsed()
  old_dir = F.dataset_dir
  try:
    p = Pipeline(ctx, root)
    p.names = make_files(root, w)
    input_pipeline.NUM_SPLIT_EXAMPLES.update(p.counts)
    F.dataset_dir = root
    (run_c17 if prop == 'C17' else run_c18)(ctx, p)
  finally:
    _entropy = None
    input_pipeline.NUM_SPLIT_EXAMPLES.update(saved)
    F.dataset_dir = old_dir
    shutil.rmtree(root, ignore_errors=True)


def run_c17(ctx, p):
  w = ctx.w
  nb, counts = fault_free_counts(w)
  kills = [f for f in ctx.faults if f['what'] == 'kill_before']
  runs = []
  if kills:
    try:
      its, procs = p.start(w['starts'][0])
    except SimCrash:
      ctx.stats.probe('killed_while_reading')
      its = None
    if its:
      runs.append(p.pull(its, procs, {
          h: int(n * w['starts'][0]['pull']) for h, n in counts.items()}))
  else:
    p.inc += 1
  for s in w['starts']:
    its, procs = p.start(s)
    runs.append(p.pull(its, procs, counts))
    check_streams(ctx, w, runs[-1], nb)
    del its
  last = p.start(dict(w['starts'][0], entropy=w['starts'][0]['entropy'] + 1))
  runs.append(p.pull(*last, {h: max(1, n // 2) if n else 0
                             for h, n in counts.items()}))
  ref = max(runs, key=lambda r: sum(map(len, r.values())))
  for r in runs:
    for h in r:
      n = len(r[h])
      check(r[h] == ref[h][:n], 'not-reproducible', lambda: (
          f'host {h}: another start gives another stream of batches (first '
          f'difference at batch '
          f'{next(i for i in range(n) if r[h][i] != ref[h][i])})'))
  ctx.nontrivial = sum(counts.values()) > 0 and w['hosts'] > 1
  if w['debug']:
    ctx.stats.probe('debug')
  if any(len(share(w, h)) % w['batch'] for h in range(w['hosts'])):
    ctx.stats.probe('incomplete_last_batch')
  if len(share(w, w['hosts'] - 1)) < len(share(w, 0)):
    ctx.stats.probe('last_share_short')


_streams = collections.OrderedDict()


def run_c18(ctx, p):
  w = ctx.w
  nb, counts = fault_free_counts(w)
  start = w['starts'][0]
  key = repr(sorted((k, v) for k, v in w.items() if k not in ('starts',
                                                              'read_chunk')))
  if key not in _streams:
    if len(_streams) > 3:
      _streams.popitem(last=False)
    p.inc = 9
    _streams[key] = p.pull(*p.start(start), counts)
    p.inc = 0
  ref = _streams[key]
  saved = {}
  for f in ctx.faults:
    if f['kind'] == 'file' and f['what'] != 'bad':
      n = p.names[f['file']]
      if not os.path.exists(n):
        continue
      with open(n, 'rb') as h:
        saved.setdefault(n, h.read())
      if f['what'] == 'missing':
        os.remove(n)
      elif 'field' in f:
        rewrite(n, f)
      else:
        size = os.path.getsize(n)
        os.truncate(n, 0 if f['what'] == 'empty' else int(f['frac'] * size))
      ctx.stats.fault(f['what'] + '_file')
  damaged = bool(saved)
  got = None
  try:
    its, procs = p.start(start)
    got = p.pull(its, procs, counts)
  except Violation as v:
    raise Violation('garbage', f'with damaged files: {v.message}') from v
  except Exception as e:  # pylint: disable=broad-except
    ctx.stats.probe('stopped')
    ctx.stats.event('stopped', type(e).__name__)
    check(damaged or p.fs.hits, 'spurious-error', lambda: (
        f'the pipeline stops although it could read everything: '
        f'{type(e).__name__}: {str(e)[:200]}'))
  if got is not None:
    ctx.stats.probe('read_everything')
    check(got == ref, 'silent-damage', lambda: (
        'the pipeline does not notice that it cannot read its files and '
        'yields other batches'))
  # the fault is gone
  for n, data in saved.items():
    with open(n, 'wb') as h:
      h.write(data)
  again = p.pull(*p.start(w['starts'][-1]), counts)
  check(again == ref, 'restart', 'after the fault is gone, a restart gives '
        'another stream')
  ctx.nontrivial = damaged or p.fs.hits > 0 or got is not None


def shrink(w):
  for key, small in (('passes', 1), ('debug', False), ('cache', False),
                     ('step', 1), ('nodes', 1), ('batch', 1), ('hosts', 1),
                     ('stored', 'f8')):
    if w[key] != small:
      yield {**w, key: small}
  if len(w['starts']) > 1:
    yield {**w, 'starts': w['starts'][:1]}
