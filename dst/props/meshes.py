"""Random meshes and partitions, and their unpartitioned reference view."""
import dataclasses
import functools
import json

import jax
import numpy as np

from dst.core import HarnessError, check

from swirl_fem.common.premesh_commons import unit_cube_mesh
from swirl_fem.core.interpolation import NodeType, Nodes1D
from swirl_fem.core.mesh_refiner import refine_premesh
from swirl_fem.core.premesh import Premesh


def gen_mesh(rng, max_elements=64, max_parts=8, periodic=0.4, high_order=0.4):
  ndim = rng.weighted([(1, 2), (2, 6), (3, 2)])
  n = {1: rng.int(2, 12), 2: rng.int(2, 4), 3: 2}[ndim]
  if ndim == 3 and rng.chance(0.3):
    n = 3
  spec = dict(ndim=ndim, n=n, a=rng.choice([0.0, 0.0, -1.0, 1.0]), b=2.0,
              periodic=[], order=1, nodes='newton_cotes',
              distort=rng.getrandbits(16) if rng.chance(0.6) else None,
              scramble=rng.getrandbits(16) if rng.chance(0.6) else None,
              group=rng.getrandbits(16) if rng.chance(0.5) else None,
              turn=rng.getrandbits(16) if rng.chance(0.35) else None,
              shape=None)
  if rng.chance(0.25):
    spec['shape'] = gen_shape(rng, spec)
  elif rng.chance(periodic):
    k = rng.weighted([(1, 3), (2, 2), (3, 1)])
    spec['periodic'] = sorted(rng.sample(range(ndim), min(k, ndim)))
  if rng.chance(high_order):
    spec['order'] = rng.weighted([(2, 3), (3, 2), (4, 1)] if ndim < 3
                                 else [(2, 1)])
    spec['nodes'] = rng.choice(['newton_cotes', 'gauss_lobatto_legendre'])
  if ndim == 1 and not spec['periodic'] and not spec['shape'] and (
      spec['order'] == 1 and rng.chance(0.5)):
    # nodes tied along arbitrary chains, listed in any order
    spec['ties'] = gen_ties(rng, n + 1)
  spec['parts'] = gen_parts(rng, spec, max_parts)
  return spec


def gen_shape(rng, spec):
  """Something other than a box of cells."""
  if spec['ndim'] > 1 and rng.chance(0.5):
    # k elements around one node, the circle closed or not, and rings of more
    return dict(kind='fan', k=rng.int(3, 7 if spec['ndim'] == 2 else 5),
                rings=rng.int(0, 2 if spec['ndim'] == 2 else 1),
                open=rng.chance(0.3))
  # some cells of the box are missing
  return dict(kind='holes', seed=rng.getrandbits(16), share=rng.choice([.15, .4]))


def gen_ties(rng, count):
  style = rng.choice(['chain', 'chain', 'random', 'star'])
  nodes = list(range(count))
  rng.shuffle(nodes)
  nodes = nodes[:rng.int(2, count)]
  if style == 'chain':
    ties = [[nodes[i], nodes[i + 1]] for i in range(len(nodes) - 1)]
  elif style == 'star':
    ties = [[nodes[0], v] for v in nodes[1:]]
  else:
    ties = [rng.sample(nodes, 2) for _ in range(rng.int(1, len(nodes)))]
  if rng.chance(0.7):
    rng.shuffle(ties)
  # mostly none between neighbours: an element tied to itself is refused
  if rng.chance(0.9):
    ties = [t for t in ties if abs(t[0] - t[1]) > 1]
  return [t if rng.chance(0.5) else t[::-1] for t in ties]


def gen_parts(rng, spec, max_parts):
  """Owner of every element; a list, or None for an unpartitioned mesh."""
  pm = premesh_of(dict(spec, parts=None))
  m = len(pm.elements)
  cls = node_classes(pm)
  for _ in range(8):
    P = rng.int(1, max(1, min(max_parts, m)))
    if spec.get('ties'):
      P = min(m, max_parts)
    if spec['periodic']:
      P = min(m, max(P, 2 + len(spec['periodic'])))
    style = rng.choice(['random', 'blocks', 'slabs', 'uneven', 'robin',
                        'single'])
    parts = assign(rng, style, P, m, pm, cls)
    if parts is not None and len(set(parts)) == max(parts) + 1:
      used = max(parts) + 1
      if used < max_parts and rng.chance(0.12):
        # some devices hold nothing
        names = sorted(rng.sample(range(rng.int(used, max_parts) + 1
                                        if used + 1 < max_parts else max_parts),
                                  used))
        parts = [names[p] for p in parts]
      return parts
  return None


def assign(rng, style, P, m, pm, cls):
  order = list(range(m))
  if style in ('random', 'uneven', 'single'):
    rng.shuffle(order)
  if style == 'slabs':
    c = pm.node_coords[pm.elements].mean(axis=1)
    d = rng.randrange(c.shape[1])
    order.sort(key=lambda e: (c[e, d], e))
  owner = [None] * m
  have = [dict() for _ in range(P)]       # class -> node

  def allowed(e, p):
    if len({int(cls[v]) for v in pm.elements[e]}) < len(pm.elements[e]):
      return False          # tied to itself: refused on any device
    for v in pm.elements[e]:
      w = have[p].get(int(cls[v]))
      if w is not None and w != int(v):
        return False
    return True

  for k, e in enumerate(order):
    if style in ('blocks', 'slabs'):
      first = min(P - 1, k * P // m)
    elif style == 'robin':
      first = k % P
    elif style == 'uneven':
      first = 0 if k >= P else k
    elif style == 'single':
      first = k if k < P - 1 else P - 1
    else:
      first = rng.randrange(P) if k >= P else k
    cand = [first] + [p for p in range(P) if p != first]
    for p in cand:
      if allowed(e, p):
        owner[e] = p
        for v in pm.elements[e]:
          have[p][int(cls[v])] = int(v)
        break
    else:
      return None
  return owner


def node_classes(pm):
  """Representative of every node under periodic identification."""
  parent = list(range(pm.num_nodes))

  def find(x):
    while parent[x] != x:
      parent[x] = parent[parent[x]]
      x = parent[x]
    return x

  if pm.periodic_links is not None:
    for a, b in zip(pm.periodic_links[:, 0].ravel(),
                    pm.periodic_links[:, 1].ravel()):
      a, b = find(int(a)), find(int(b))
      if a != b:
        parent[max(a, b)] = min(a, b)
  return np.array([find(i) for i in range(pm.num_nodes)])


def fan(k, rings, gap, ndim):
  """Elements around a node: coordinates and elements."""
  at = {}

  def node(r, j):
    if r < 0:
      r = j = 0
      p = (0.0, 0.0)
    else:
      j = j if gap else j % (2 * k)
      phi = 2 * np.pi * j / (2 * k + gap)
      p = [1.7 ** r * (1.35 if j % 2 else 1.0) * f(phi) for f in (np.cos, np.sin)]
    return at.setdefault(tuple(p), len(at))

  quads = [[node(-1, 0), node(0, 2 * i), node(0, 2 * i + 1), node(0, 2 * i + 2)]
           for i in range(k)]
  for r in range(rings):
    quads += [[node(r, j), node(r + 1, j), node(r + 1, j + 1), node(r, j + 1)]
              for j in range(2 * k)]
  xy = np.array(list(at))
  elements = np.array(quads)[:, [0, 3, 1, 2]]
  if ndim == 3:
    xy = np.concatenate([np.concatenate([xy, np.full((len(xy), 1), z)], axis=1)
                         for z in (0.0, 1.0)])
    elements = np.stack([elements, elements + len(at)], axis=-1)
    elements = elements.reshape(len(elements), 8)
  return xy, elements.astype(np.int32)


def outer_facets(elements, ndim):
  """The facets that only one element has."""
  e = elements.reshape((-1,) + (2,) * ndim)
  f = np.concatenate([np.take(e, s, axis=1 + d).reshape(len(e), -1)
                      for d in range(ndim) for s in (0, 1)])
  key = [tuple(sorted(x)) for x in f.tolist()]
  return f[[key.count(x) == 1 for x in key]]


def shaped(spec):
  shape, ndim = spec['shape'], spec['ndim']
  if shape['kind'] == 'fan':
    coords, elements = fan(shape['k'], shape['rings'], int(shape['open']) * 2, ndim)
  else:
    pm = unit_cube_mesh(spec['n'], ndim=ndim, a=spec['a'], b=spec['b'])
    r = np.random.RandomState(shape['seed'])
    keep = r.uniform(size=len(pm.elements)) >= shape['share']
    keep[r.randint(len(keep))] = True
    used, elements = np.unique(pm.elements[keep], return_inverse=True)
    coords = np.array(pm.node_coords)[used]
    elements = elements.reshape(keep.sum(), -1).astype(np.int32)
  return Premesh.create(node_coords=coords, elements=elements, physical_groups={
      'boundary': outer_facets(elements, ndim).astype(np.int32)})


def turned(elements, ndim, seed):
  """Elements whose first corner and directions are others."""
  r = np.random.RandomState(seed)
  e = elements.reshape((-1,) + (2,) * ndim).copy()
  for i in range(len(e)):
    axes = r.permutation(ndim)
    flips = r.randint(0, 2, size=ndim)
    odd = np.linalg.det(np.eye(ndim)[axes]) * (-1) ** flips.sum() < 0
    if odd:
      flips[0] ^= 1
    e[i] = np.flip(e[i].transpose(axes), [d for d in range(ndim) if flips[d]])
  return e.reshape(elements.shape)


@functools.lru_cache(maxsize=256)
def _premesh(key):
  spec = json.loads(key)
  if spec.get('shape'):
    pm = shaped(spec)
  else:
    pm = unit_cube_mesh(spec['n'], ndim=spec['ndim'], a=spec['a'], b=spec['b'],
                        periodic_dims=tuple(spec['periodic']))
  coords = np.array(pm.node_coords)
  groups = {k: np.array(v) for k, v in pm.physical_groups.items()}
  if spec.get('group') is not None and 'boundary' in groups:
    r = np.random.RandomState(spec['group'])
    f = groups['boundary']
    keep = r.uniform(size=len(f)) < 0.5
    if keep.any() and not keep.all():
      groups['some'] = f[keep]
      if r.uniform() < 0.5:
        groups['rest'] = f[~keep]
  if spec.get('distort') is not None:
    r = np.random.RandomState(spec['distort'])
    h = (spec['b'] - spec['a']) / spec['n']
    if spec.get('shape') and spec['shape']['kind'] == 'fan':
      h = 0.4
    by = r.uniform(-0.15, 0.15, size=coords.shape) * h
    if spec.get('tidy'):
      by = by[node_classes(pm)]          # periodic sides keep fitting
    coords = coords + by
  elements = np.array(pm.elements)
  if spec.get('turn') is not None and spec['ndim'] > 1:
    elements = turned(elements, spec['ndim'], spec['turn'])
  links = pm.periodic_links
  if spec.get('ties'):
    links = np.array(spec['ties'], np.int32)[:, :, None]
  if spec.get('scramble') is not None:
    r = np.random.RandomState(spec['scramble'])
    perm = r.permutation(len(coords))          # old -> new
    new = np.empty_like(coords)
    new[perm] = coords
    coords = new
    elements = perm[elements].astype(np.int32)[r.permutation(len(elements))]
    groups = {k: perm[v].astype(np.int32) for k, v in groups.items()}
    if links is not None:
      links = perm[links].astype(np.int32)
      flip = r.uniform(size=len(links)) < 0.5
      links[flip] = links[flip][:, ::-1]
  pm = dataclasses.replace(pm, node_coords=coords, elements=elements,
                           physical_groups=groups, periodic_links=links)
  if spec['order'] > 1:
    pm = refine_premesh(pm, Nodes1D.create(num_points=spec['order'] + 1,
                                           node_type=NodeType(spec['nodes'])))
  return pm


def premesh_of(spec):
  key = json.dumps(dict(spec, parts=None, x64=jax.config.jax_enable_x64),
                   sort_keys=True)
  pm = _premesh(key)
  if spec.get('parts') is not None:
    pm = dataclasses.replace(pm, partitions=np.array(spec['parts'], np.int32))
  return pm


class View:
  """Which original node every slot of a distributed mesh is.

  Slots are matched by their coordinates, so nothing here depends on how the
  code numbers them.
  """

  def __init__(self, spec, mesh, pm=None):
    self.pm = pm if pm is not None else premesh_of(dict(spec, parts=None))
    self.classes = node_classes(self.pm)
    coords = np.asarray(mesh.node_coords)
    orig = self.pm.node_coords.astype(coords.dtype)
    table = {c.tobytes(): i for i, c in enumerate(orig)}
    if len(table) != len(orig):
      raise HarnessError('mesh nodes are not distinct')
    idx = np.asarray(mesh.node_indices)
    self.valid = idx != -1
    self.node = np.full(idx.shape, -1)
    for s in np.ndindex(*idx.shape):
      if self.valid[s]:
        k = table.get(np.ascontiguousarray(coords[s]).tobytes())
        check(k is not None, 'coordinates', lambda: (
            f'slot {s} has coordinates {coords[s].tolist()} of no node'))
        self.node[s] = k
    self.cls = np.where(self.valid, self.classes[self.node], -1)

  def scatter_sum(self, u, kind=np.float64):
    """Sum over all slots of every class, in the widest type."""
    u = np.asarray(u)[self.valid].astype(kind)
    cls = self.cls[self.valid]
    tot = np.zeros(self.pm.num_nodes, dtype=kind)
    np.add.at(tot, cls, u)
    mag = np.zeros(self.pm.num_nodes)
    np.add.at(mag, cls, np.abs(u))
    cnt = np.zeros(self.pm.num_nodes, int)
    np.add.at(cnt, cls, 1)
    return tot, mag, cnt


def shrink(spec):
  """Simpler meshes (partition kept valid)."""
  for key in ('group', 'distort', 'scramble', 'turn'):
    if spec.get(key) is not None and key != 'scramble':
      yield {**spec, key: None}
  if spec['order'] > 1:
    yield {**spec, 'order': spec['order'] - 1,
           'nodes': spec['nodes']}
