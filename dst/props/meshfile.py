"""C20: reading mesh files from a simulated disk."""
import contextlib
import io
import itertools
import os
import random
import shutil
import struct
import tempfile
import traceback

import numpy as np

from dst import simfs
from dst.core import check

import meshio

from swirl_fem.common import mesh_reader
from swirl_fem.core import mesh_refiner
from swirl_fem.core.interpolation import Nodes1D, NodeType

# corners of a cell in Gmsh's order
CORNERS = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
               (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
GMSH_TYPE = {0: 15, 1: 1, 2: 3, 3: 5}
NAME = {0: 'vertex', 1: 'line', 2: 'quad', 3: 'hexahedron'}


def _rotations(n):
  """Relabellings of a cell's corners that keep its orientation."""
  out = []
  for p in itertools.permutations(range(n)):
    for flip in itertools.product((0, 1), repeat=n):
      m = np.zeros((n, n))
      for i in range(n):
        m[i, p[i]] = -1 if flip[i] else 1
      if np.linalg.det(m) > 0:
        out.append((p, flip))
  return out


ROT = {n: _rotations(n) for n in (1, 2, 3)}


def _turn(c, rot):
  p, flip = rot
  return tuple(c[p[i]] ^ flip[i] for i in range(len(p)))


def gen(prop, c, rng, tier):
  """A few mesh files, a history of reads and the faults each read meets."""
  files = []
  for _ in range(c.weighted([(1, 3), (2, 2)])):
    ndim = c.weighted([(1, 1), (2, 3), (3, 4)])
    size = [c.int(1, {1: 9, 2: 5, 3: 3}[ndim]) for _ in range(ndim)]
    fmt = c.choice(['4.1', '4.1', '2.2'])
    periodic = [d for d in range(ndim) if ndim > 1 and c.chance(0.6)]
    files.append(dict(
        ndim=ndim, size=size, periodic=periodic,
        fmt=fmt, binary=c.chance(0.5),
        # Gmsh numbers nodes in file order; other programs need not
        sparse=(not periodic and c.chance(0.4)),
        split=c.chance(0.4), facets=c.chance(0.85), orphans=c.int(0, 3),
        comments=c.chance(0.2), lower=c.chance(0.6), warp=c.choice([0., .1]),
        seed=c.getrandbits(30)))
  names = ['mesh.msh', 'other/mesh.msh']
  reads, faults = [], []
  for i in range(rng.int(2, 5)):
    reads.append(dict(file=rng.int(0, len(files) - 1),
                      where=rng.int(0, 1) if rng.chance(.5) else 0,
                      wrong_dim=rng.chance(0.04),
                      str_path=rng.chance(0.3),
                      chunk=rng.weighted([(1 << 20, 3), (512, 2), (61, 1)])))
    if rng.chance(0.65):
      for _ in range(rng.weighted([(1, 3), (2, 1)])):
        faults.append(_fault(rng, i))
  reads.append(dict(file=reads[-1]['file'], where=reads[-1]['where'],
                    wrong_dim=False, str_path=False, chunk=1 << 20))
  return {'workload': dict(files=files, names=names, reads=reads),
          'sched': {'seed': rng.getrandbits(40)}, 'faults': faults}


def _fault(rng, i):
  what = rng.weighted([('truncate', 5), ('bad', 3), ('eio', 3), ('short', 3),
                       ('missing', 1), ('empty', 1), ('cut_end', 3)])
  if what in ('truncate', 'bad'):
    return dict(kind='file', inc=i, what=what, frac=round(rng.random(), 4))
  if what == 'cut_end':
    return dict(kind='file', inc=i, what=what, bytes=rng.int(1, 400))
  if what in ('missing', 'empty'):
    return dict(kind='file', inc=i, what=what)
  if what == 'eio' and rng.chance(0.3):
    return dict(kind='disk', inc=i, what='eio', of='open_r', op=rng.int(0, 1))
  return dict(kind='disk', inc=i, what=what, of='read',
              op=int(rng.random() ** 2 * 60), frac=round(rng.random(), 3))


class MeshData:
  """A mesh, as it is in the file."""

  def __init__(self, w):
    r = random.Random(w['seed'])
    n, size = w['ndim'], w['size']
    self.w, self.ndim = w, n
    grid = list(itertools.product(*[range(s + 1) for s in size]))
    if w['fmt'] == '2.2' and w['binary']:
      w = {**w, 'sparse': False}
    order = list(grid) + [None] * w['orphans']
    r.shuffle(order)
    self.index = {g: i for i, g in enumerate(order) if g is not None}
    pts = np.zeros((len(order), 3))
    scale = [r.uniform(0.5, 3) for _ in range(n)]
    off = [r.uniform(-5, 5) for _ in range(n)]
    amp = 0.12 if r.random() < 0.7 else 0.0
    amp = w.get('amp', amp)
    for i, g in enumerate(order):
      for d in range(n):
        x = (r.uniform(-9, 9) if g is None else
             off[d] + scale[d] * (g[d] + amp * r.uniform(-1, 1)))
        pts[i, d] = x
      if n < 3 and w['warp']:
        pts[i, 2] = w['warp'] * r.random()
    self.points = pts
    self.tags = list(range(1, len(order) + 1))
    if w['sparse']:
      self.tags = r.sample(range(1, 3 * len(order) + 2), len(order))
    # cells by dimension: {dim: [(entity, [nodes in Gmsh order])]}
    self.cells = {d: [] for d in range(4)}
    cells = []
    for base in itertools.product(*[range(s) for s in size]):
      rot = r.choice(ROT[n])
      cells.append([self.index[tuple(b + x for b, x in zip(
          base, _turn(c, rot)))] for c in CORNERS[n]])
    r.shuffle(cells)
    self.elements = cells
    k = r.randint(0, len(cells)) if w['split'] else len(cells)
    for i, c in enumerate(cells):
      self.cells[n].append((1 if i < k else 2, c))
    # facets: two sides per direction, each one or two entities
    self.links, self.periodic = [], []
    ent = 0
    for d in range(n):
      pairs, masters = {}, {}
      sides = {}
      for side in (0, size[d]):
        others = [range(s) for i, s in enumerate(size) if i != d]
        cut = None
        free = [i for i in range(n) if i != d and size[i] > 1]
        if w['split'] and free:
          cut = free[0]
        fs = []
        for base in itertools.product(*others):
          base = list(base[:d]) + [side] + list(base[d:])
          corners = CORNERS.get(n - 1, [()])
          nodes = [tuple(base[:d][i] + c[i] for i in range(d)) + (side,) +
                   tuple(base[d + 1:][i] + c[d + i] for i in range(n - 1 - d))
                   for c in corners]
          part = 0 if cut is None or base[cut] < (size[cut] + 1) // 2 else 1
          fs.append((part, nodes))
        sides[side] = fs
      slave = size[d] if r.random() < 0.5 else 0
      master = size[d] - slave
      for part in (0, 1):
        if not any(p == part for p, _ in sides[0]):
          continue
        ids = {}
        for side in (0, size[d]):
          ent += 1
          ids[side] = ent
          for p, nodes in sides[side]:
            if p == part and w['facets'] and n > 1:
              nodes = list(nodes)
              s = r.randrange(len(nodes))
              nodes = nodes[s:] + nodes[:s]
              if r.random() < 0.5:
                nodes.reverse()
              self.cells[n - 1].append((ids[side],
                                        [self.index[x] for x in nodes]))
        if d in w['periodic']:
          at = sorted({x for p, nodes in sides[slave] if p == part
                       for x in nodes})
          r.shuffle(at)
          to = lambda x: x[:d] + (master,) + x[d + 1:]
          self.periodic.append((n - 1, ids[slave], ids[master],
                                [(self.index[x], self.index[to(x)])
                                 for x in at]))
          for p, nodes in sides[slave]:
            if p == part:
              self.links.append([(self.index[x], self.index[to(x)])
                                 for x in nodes])
    r.shuffle(self.cells[n - 1]) if not w['split'] and n > 1 else None
    if self.periodic:
      # Gmsh also lists the edges and corners of periodic surfaces
      for low in range(n - 1):
        e = self.periodic[r.randrange(len(self.periodic))]
        few = e[3][:2]
        self.periodic.insert(r.randrange(len(self.periodic) + 1),
                             (low, 90 + low, 95 + low, few))
    if w['lower'] and n > 1:
      for g in r.sample(grid, min(2, len(grid))):
        self.cells[0].append((1, [self.index[g]]))
      if n == 3:
        for g in grid:
          if g[0] == 0 and g[1] == 0 and g[2] < size[2]:
            self.cells[1].append((1, [self.index[g],
                                      self.index[(0, 0, g[2] + 1)]]))
    self.has_links = bool(w['periodic']) and w['facets']

  # -- file formats ---------------------------------------------------------
  def encode(self):
    w = self.w
    head = b''
    if w['comments']:
      head = b'$Comments\nmade for a test\n$EndComments\n'
    body = self.msh22() if w['fmt'] == '2.2' else self.msh41()
    tail = b'$Unknown\n1 2 3\n$EndUnknown\n' if w['comments'] else b''
    return head + body + tail

  def blocks(self):
    out = []
    for d in range(4):
      for e in sorted({e for e, _ in self.cells[d]}):
        out.append((d, e, [c for x, c in self.cells[d] if x == e]))
    if self.w['split']:
      out.reverse()
    return out

  def msh41(self):
    b, w = io.BytesIO(), self.w
    binary = w['binary']

    def put(fmt, *v):
      if binary:
        b.write(struct.pack('<' + fmt, *v))
      else:
        b.write((' '.join(repr(float(x)) if f == 'd' else str(int(x))
                          for f, x in zip(fmt, v)) + '\n').encode())

    b.write(f'$MeshFormat\n4.1 {int(binary)} 8\n'.encode())
    if binary:
      b.write(struct.pack('<i', 1) + b'\n')
    b.write(b'$EndMeshFormat\n$Nodes\n')
    N = len(self.points)
    cut = N // 2 if w['split'] and N > 3 else N
    blocks = [range(0, cut)] + ([range(cut, N)] if cut < N else [])
    put('QQQQ', len(blocks), N, min(self.tags), max(self.tags))
    for i, bl in enumerate(blocks):
      put('iii', self.ndim, i + 1, 0)
      put('Q', len(bl))
      for k in bl:
        put('Q', self.tags[k])
      for k in bl:
        put('ddd', *self.points[k])
    b.write((b'\n' if binary else b'') + b'$EndNodes\n$Elements\n')
    bl = self.blocks()
    n = sum(len(cs) for _, _, cs in bl)
    put('QQQQ', len(bl), n, 1, n)
    tag = 0
    for d, e, cs in bl:
      put('iii', d, e, GMSH_TYPE[d])
      put('Q', len(cs))
      for c in cs:
        tag += 1
        put('Q' * (1 + len(c)), tag, *[self.tags[k] for k in c])
    b.write((b'\n' if binary else b'') + b'$EndElements\n')
    if self.periodic:
      b.write(b'$Periodic\n')
      put('Q', len(self.periodic))
      for d, s, m, pairs in self.periodic:
        put('iii', d, s, m)
        put('Q', 0)
        put('Q', len(pairs))
        for x, y in pairs:
          put('QQ', self.tags[x], self.tags[y])
      b.write((b'\n' if binary else b'') + b'$EndPeriodic\n')
    return b.getvalue()

  def msh22(self):
    b, w = io.BytesIO(), self.w
    binary = w['binary']
    b.write(f'$MeshFormat\n2.2 {int(binary)} 8\n'.encode())
    if binary:
      b.write(struct.pack('<i', 1) + b'\n')
    b.write(f'$EndMeshFormat\n$Nodes\n{len(self.points)}\n'.encode())
    for t, p in zip(self.tags, self.points):
      if binary:
        b.write(struct.pack('<iddd', t, *p))
      else:
        b.write(f'{t} {" ".join(repr(float(x)) for x in p)}\n'.encode())
    b.write((b'\n' if binary else b'') + b'$EndNodes\n$Elements\n')
    bl = self.blocks()
    b.write(f'{sum(len(cs) for _, _, cs in bl)}\n'.encode())
    tag = 0
    for d, e, cs in bl:
      if binary:
        b.write(struct.pack('<iii', GMSH_TYPE[d], len(cs), 2))
      for c in cs:
        tag += 1
        t = [self.tags[k] for k in c]
        if binary:
          b.write(struct.pack(f'<{3 + len(t)}i', tag, 0, e, *t))
        else:
          b.write((' '.join(map(str, [tag, GMSH_TYPE[d], 2, 0, e] + t)) +
                   '\n').encode())
    b.write((b'\n' if binary else b'') + b'$EndElements\n')
    if self.periodic:
      b.write(f'$Periodic\n{len(self.periodic)}\n'.encode())
      for d, s, m, pairs in self.periodic:
        b.write(f'{d} {s} {m}\n{len(pairs)}\n'.encode())
        for x, y in pairs:
          b.write(f'{self.tags[x]} {self.tags[y]}\n'.encode())
      b.write(b'$EndPeriodic\n')
    return b.getvalue()


# -- what a file describes ----------------------------------------------------
def _canonical(cell, ndim):
  """A cell given in Gmsh's order, independent of its first corner."""
  at = dict(zip(CORNERS[ndim], cell))
  return min(tuple(at[_turn(c, rot)] for c in sorted(at)) for rot in ROT[ndim])


def _canonical_lex(cell, ndim):
  at = dict(zip(sorted(CORNERS[ndim]), cell))
  return min(tuple(at[_turn(c, rot)] for c in sorted(at)) for rot in ROT[ndim])


def described(points, cells, links, ndim):
  """Elements and periodic pairs by coordinates."""
  xyz = [tuple(p[:ndim]) for p in np.asarray(points).tolist()]
  elems = sorted(_canonical([xyz[i] for i in c], ndim) for c in cells)
  pairs = sorted({tuple(sorted(tuple(sorted((xyz[a], xyz[b])))
                               for a, b in l)) for l in links or ()})
  return elems, pairs


def parsed(path, ndim):
  """What meshio makes of a damaged file."""
  m = meshio.read(path)
  if NAME[ndim] not in m.cells_dict:
    raise ValueError('no elements')
  links = []
  if m.gmsh_periodic:
    for facet in m.cells_dict[NAME[ndim - 1]].tolist():
      for d, _, _, pairs in m.gmsh_periodic:
        to = dict(np.asarray(pairs).tolist())
        if d == ndim - 1 and all(x in to for x in facet):
          links.append([(x, to[x]) for x in facet])
    if not links:
      raise ValueError('no periodic facets')
  return described(m.points, m.cells_dict[NAME[ndim]].tolist(), links, ndim)


def observed(mesh, ndim):
  """What the code under test returned, in the same terms."""
  pts = np.asarray(mesh.node_coords)
  check(pts.ndim == 2 and pts.shape[1] == ndim, 'coordinates',
        lambda: f'node coordinates have shape {pts.shape}')
  xyz = [tuple(p) for p in pts.tolist()]
  el = np.asarray(mesh.elements)
  check(el.ndim == 2 and el.shape[1] == 2 ** ndim, 'elements',
        lambda: f'elements have shape {el.shape}')
  elems = sorted(_canonical_lex([xyz[i] for i in c], ndim) for c in el.tolist())
  pairs = set()
  if mesh.periodic_links is not None:
    for src, dst in np.asarray(mesh.periodic_links).tolist():
      pairs.add(tuple(sorted(tuple(sorted((xyz[a], xyz[b])))
                             for a, b in zip(src, dst))))
  return elems, sorted(pairs)


def compare(got, want, what):
  check(len(got[0]) == len(want[0]), 'elements', lambda: (
      f'{what}: {len(got[0])} elements instead of {len(want[0])}'))
  bad = [g for g, x in zip(got[0], want[0]) if g != x]
  check(not bad, 'elements', lambda: (
      f'{what}: {len(bad)} elements are not those of the file (node order, '
      f'orientation or coordinates), such as {bad[0]}'))
  bad = [p for p in got[1] if p not in set(want[1])]
  check(not bad, 'periodic', lambda: (
      f'{what}: {len(bad)} of {len(got[1])} periodic facets are not paired '
      f'with their partners, such as {bad[0]}'))
  check(len(got[1]) == len(want[1]), 'periodic', lambda: (
      f'{what}: {len(got[1])} periodic facets instead of {len(want[1])}'))


def check_whole(ctx, mesh, data, what):
  """A mesh read from an undamaged file."""
  n = data.ndim
  compare(observed(mesh, n), described(
      data.points, data.elements, data.links if data.has_links else None, n),
          what)
  xyz = np.asarray(mesh.node_coords)
  used = np.unique(np.asarray(mesh.elements))
  check(len({tuple(p) for p in xyz[used].tolist()}) == len(used), 'nodes',
        lambda: f'{what}: elements that share a node no longer do')
  if mesh.periodic_links is not None and n == 3:
    quads = {}
    for _, c in data.cells[2]:
      p = [tuple(data.points[i].tolist()) for i in c]
      quads[frozenset(p)] = p
    for l in np.asarray(mesh.periodic_links).tolist():
      for f in l:
        p = [tuple(xyz[i].tolist()) for i in f]
        q = quads.get(frozenset(p))
        check(q is not None and (q.index(p[0]) - q.index(p[3])) % 4 == 2 and
              (q.index(p[1]) - q.index(p[2])) % 4 == 2, 'facet-order', lambda: (
                  f'{what}: the nodes of the periodic facet {p} are not in '
                  f'lexicographic order'))
  if data.w['seed'] % 6 == 0 and len(data.elements) <= 12:
    fine = mesh_refiner.refine_premesh(mesh, Nodes1D.create(
        3, NodeType.GAUSS_LOBATTO_LEGENDRE))
    final = fine.finalize()
    idx = np.asarray(final.node_indices)[np.unique(np.asarray(fine.elements))]
    have = len(np.unique(idx))
    want = 1
    for d, s in enumerate(data.w['size']):
      want *= 2 * s + (0 if d in data.w['periodic'] and data.has_links else 1)
    ctx.stats.probe('refined')
    check(have == want, 'refined', lambda: (
        f'{what}: refined to order 2 it has {have} distinct nodes instead of '
        f'{want}'))


def run(prop, ctx):
  w = ctx.w
  root = tempfile.mkdtemp(prefix='mesh-', dir=os.environ.get('DST_SCRATCH'))
  try:
    os.mkdir(os.path.join(root, 'other'))
    data = [MeshData(f) for f in w['files']]
    for i, r in enumerate(w['reads']):
      one_read(ctx, i, r, data[r['file']], root,
               os.path.join(root, w['names'][r['where']]))
  finally:
    shutil.rmtree(root, ignore_errors=True)


def one_read(ctx, i, r, d, root, path):
  whole = d.encode()
  blob = whole
  missing = False
  for f in ctx.faults:
    if f['kind'] == 'file' and f['inc'] == i:
      if f['what'] == 'truncate':
        blob = blob[:int(f['frac'] * len(whole))]
      elif f['what'] == 'cut_end':
        blob = blob[:max(0, len(whole) - f['bytes'])]
      elif f['what'] == 'empty':
        blob = b''
      elif f['what'] == 'missing':
        missing = True
      if f['what'] != 'bad':
        ctx.stats.fault(f['what'] + '_file')
  if os.path.exists(path):
    os.remove(path)
  if not missing:
    with open(path, 'wb') as h:
      h.write(blob)
  damaged = missing or blob != whole
  fs = simfs.SimFS(ctx, root, inc=i)
  fs.read_chunk = r['chunk']
  for f in ctx.faults:
    if f['kind'] == 'file' and f['inc'] == i and f['what'] == 'bad' and blob:
      fs.bad[path] = int(f['frac'] * len(blob))
  ndim = d.ndim % 3 + 1 if r['wrong_dim'] else d.ndim
  mesh, err = None, None
  quiet = io.StringIO()
  with contextlib.redirect_stdout(quiet), contextlib.redirect_stderr(quiet):
    with simfs.mounted(fs):
      try:
        mesh = mesh_reader.read(path if r['str_path'] else
                                mesh_reader.epath.Path(path), ndim=ndim)
      except (Exception, SystemExit) as e:  # pylint: disable=broad-except
        # the frames of the failed call no longer exist for its caller
        traceback.clear_frames(e.__traceback__)
        err = f'{type(e).__name__}: {str(e)[:200]}'
        ctx.stats.event('error', type(e).__name__)
    check(not fs.open_files, 'left-open', lambda: (
        f'read {i} ' + ('fails and ' if err else '') + 'leaves the file open'))
    if missing:
      check(not os.path.exists(path), 'modified', 'reading created a file')
    else:
      with open(path, 'rb') as h:
        check(h.read() == blob, 'modified', 'reading changed the file')
    extra = sorted(os.path.relpath(os.path.join(a, x), root)
                   for a, _, xs in os.walk(root) for x in xs)
    known = set(ctx.w['names'])
    check(set(extra) <= known, 'modified', f'reading left files {extra}')
    what = f'read {i}'
    if r['wrong_dim'] and not damaged and not fs.hits:
      # elements of another dimension: there are none, or only facets
      if ndim > d.ndim or not d.cells[ndim]:
        check(err is not None, 'wrong-dimension', lambda: (
            f'{what}: a mesh without elements of dimension {ndim} is read'))
      ctx.stats.probe('wrong_dimension')
    elif r['wrong_dim']:
      pass
    elif mesh is not None:
      if not damaged:
        if fs.hits:
          what += ' (recovered from I/O errors)'
          ctx.stats.probe('recovered')
        check_whole(ctx, mesh, d, what)
        ctx.stats.probe('read')
      else:
        want, bad = None, ''
        try:
          check(not missing, 'garbage', f'{what}: a missing file is read')
          want = parsed(path, d.ndim)
        except Exception as e:  # pylint: disable=broad-except
          bad = f'{type(e).__name__}: {str(e)[:100]}'
        except SystemExit:
          bad = 'not a mesh file'
        check(want is not None, 'garbage', lambda: (
            f'{what}: a mesh is made of a damaged file that cannot be read '
            f'({bad})'))
        compare(observed(mesh, d.ndim), want, what + ' (truncated file)')
        ctx.stats.probe('truncated_but_valid')
    else:
      undescribed = d.w['periodic'] and not d.w['facets']
      if undescribed:
        # the file says which nodes are tied but not which facets
        ctx.stats.probe('no_facets')
      check(damaged or fs.hits or undescribed, 'spurious-error', lambda: (
          f'{what}: reading an intact file fails: {err}'))
      ctx.stats.probe('failed')
  ctx.stats.event('read', i, mesh is not None)


def shrink(w):
  for i in range(len(w['reads'])):
    # earlier reads only: faults name reads by position
    if i == len(w['reads']) - 1 and i:
      yield {**w, 'reads': w['reads'][:i]}
  for i, f in enumerate(w['files']):
    def put(**k):
      fs = list(w['files'])
      fs[i] = {**f, **k}
      return {**w, 'files': fs}
    for key, small in (('binary', False), ('split', False), ('orphans', 0),
                       ('comments', False), ('lower', False), ('warp', 0.),
                       ('sparse', False), ('periodic', [])):
      if f[key] != small:
        yield put(**{key: small})
    for d in range(f['ndim']):
      if f['size'][d] > 1:
        s = list(f['size'])
        s[d] = 1
        yield put(size=s)
    if len(f['periodic']) > 1:
      for d in f['periodic']:
        yield put(periodic=[x for x in f['periodic'] if x != d])
