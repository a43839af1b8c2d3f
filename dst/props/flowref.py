"""A flow step written out with dense matrices, from nothing but the corners.

Nodes are told apart by which corners they lie between; whatever number the code
gives them, they are found again by their coordinates.
"""
import functools
import itertools

import numpy as np
from numpy.polynomial import legendre

from dst.core import HarnessError, check

# y' at the newest of k + 1 equidistant values, times the distance
BDF = {1: [-1., 1.], 2: [.5, -2., 1.5], 3: [-1 / 3, 1.5, -3., 11 / 6]}
# the value one step ahead, by the line or parabola through the last ones
EXT = {1: [1.], 2: [-1., 2.], 3: [1., -3., 3.]}


@functools.lru_cache(maxsize=None)
def gll(n):
  """n points with both ends, and weights."""
  top = np.zeros(n)
  top[-1] = 1
  inner = legendre.legroots(legendre.legder(top))
  x = np.concatenate([[-1.], np.sort(np.real(inner)), [1.]])
  return x, 2 / (n * (n - 1)) / legendre.legval(x, top) ** 2


def lagrange(nodes, x):
  """Values and slopes at x of the polynomials that are 1 at one node each."""
  V = legendre.legvander(nodes, len(nodes) - 1)
  c = np.linalg.inv(V)
  at = legendre.legvander(x, len(nodes) - 1) @ c
  slope = np.stack([legendre.legval(x, legendre.legder(c[:, j]))
                    for j in range(len(nodes))], axis=-1)
  return at, slope


def kron(ms):
  return functools.reduce(np.kron, ms)


def tensor(nodes, x, ndim):
  """[q, n] values and [d, q, n] slopes of the products."""
  v, s = lagrange(np.asarray(nodes), np.asarray(x))
  return kron([v] * ndim), np.stack([
      kron([s if i == d else v for i in range(ndim)]) for d in range(ndim)])


def grid(x, ndim):
  return np.array(list(itertools.product(x, repeat=ndim)))


def corner_weights(points):
  """[q, 2**d] how much of every corner is in a point of the reference cube."""
  out = []
  for p in points:
    out.append([np.prod([(1 + x) / 2 if b else (1 - x) / 2 for x, b in zip(p, bits)])
                for bits in itertools.product((0, 1), repeat=len(p))])
  return np.array(out)


def key_of(corners, weights):
  return frozenset((int(c), round(float(w), 6)) for c, w in zip(corners, weights)
                   if w > 1e-9)


class Flow:
  """One mesh, one order, one set of walls."""

  def __init__(self, pm, order, walls, over):
    d = self.ndim = pm.ndim
    corners = np.asarray(pm.elements)
    X = np.asarray(pm.node_coords, np.float64)[corners]        # [e, c, d]
    self.E = len(corners)
    nodes, wts = gll(order + 1)
    local = corner_weights(grid(nodes, d))                     # [n, c]
    self.n = len(local)
    # nodes, and which of them are the same
    keys = [[key_of(corners[e], w) for w in local] for e in range(self.E)]
    at = {}
    for e in range(self.E):
      for i, k in enumerate(keys[e]):
        at.setdefault(k, local[i] @ X[e])
    self.keys = list(at)
    number = {k: i for i, k in enumerate(self.keys)}
    self.coords = np.array([at[k] for k in self.keys])
    parent = list(range(len(self.keys)))

    def find(i):
      while parent[i] != i:
        i = parent[i]
      return i
    if pm.periodic_links is not None:
      side = corner_weights(grid(nodes, d - 1))
      for a, b in np.asarray(pm.periodic_links).tolist():
        for w in side:
          i, j = find(number[key_of(a, w)]), find(number[key_of(b, w)])
          parent[max(i, j)] = min(i, j)
    roots = sorted({find(i) for i in range(len(self.keys))})
    of = {r: i for i, r in enumerate(roots)}
    self.cls = np.array([of[find(i)] for i in range(len(self.keys))])
    self.N = len(roots)
    self.loc = np.array([[self.cls[number[k]] for k in row] for row in keys])
    self.first = np.array([self.coords[r] for r in roots])     # a place of each
    # which corners a node is between
    self.P = np.zeros((self.N, self.N))
    for k, i in number.items():
      self.P[self.cls[i]] = 0
      for c, x in k:
        self.P[self.cls[i], self.cls[number[key_of([c], [1.])]]] += x
    # walls: nodes all of whose corners are in one of their facets
    self.free = np.ones(self.N, bool)
    for g in walls:
      for f in np.asarray(pm.physical_groups[g]).tolist():
        f = set(f)
        for k, i in number.items():
          if {c for c, _ in k} <= f:
            self.free[self.cls[i]] = False
    # geometry at sets of points
    self.G = self.slopes(X, nodes, nodes, wts)
    over_x, over_w = gll(order + 1 + over)
    self.O = self.slopes(X, nodes, over_x, over_w)
    # pressure: order - 1 Gauss points in every direction
    pn, _ = legendre.leggauss(order - 1)
    self.pv, _ = tensor(pn, nodes, d)                          # [q, p]
    self.pcoords = (corner_weights(grid(pn, d)) @ X).reshape(-1, d)
    self.np = len(self.pcoords)
    # operators
    v, dv, wd = self.G
    here = np.array([[number[k] for k in row] for row in keys])
    self.own = np.zeros(len(self.keys))                        # without copies
    np.add.at(self.own, here, wd @ v)                          # sums of rows
    self.mass = np.zeros(self.N)
    np.add.at(self.mass, self.cls, self.own)
    lap = np.einsum('eq,jeqa,jeqb->eab', wd, dv, dv)
    self.K = np.zeros((self.N, self.N))
    for e in range(self.E):
      np.add.at(self.K, np.ix_(self.loc[e], self.loc[e]), lap[e])
    div = np.einsum('eq,qp,jeqb->jepb', wd, self.pv, dv)
    self.D = np.zeros((d, self.np, self.N))
    per = self.np // self.E
    for j in range(d):
      for e in range(self.E):
        np.add.at(self.D[j], np.ix_(range(e * per, (e + 1) * per), self.loc[e]),
                  div[j, e])
    self.pmass = np.zeros((self.np, self.np))
    for e in range(self.E):
      s = slice(e * per, (e + 1) * per)
      self.pmass[s, s] = np.einsum('q,qp,qr->pr', wd[e], self.pv, self.pv)
    Df = self.D * self.free
    self.S = np.einsum('jpn,n,jqn->pq', Df, 1 / self.mass, Df)
    # pressures that push nothing
    one = np.ones(self.np)
    self.closed = bool(np.abs(np.einsum('jpn,p->jn', Df, one)).max()
                       < 1e-9 * np.abs(Df).max())
    val, vec = np.linalg.eigh(self.S)
    null = val < 1e-9 * val[-1]
    self.nullity = int(null.sum())
    self.spread = float(val[-1] / val[~null][0])
    self.Sinv = (vec[:, ~null] / val[~null]) @ vec[:, ~null].T
    if self.closed:
      self.center = np.eye(self.np) - np.outer(one, one @ self.pmass) / (
          one @ self.pmass @ one)
    low, _ = gll(order)
    one_d = lagrange(low, nodes)[0] @ lagrange(nodes, low)[0]
    self.F = kron([one_d] * d)
    self.count = self.asm(np.ones((self.E, self.n)))

  def slopes(self, X, nodes, x, w):
    """Values [q, n], slopes in space [d, e, q, n], and weights [e, q]."""
    d = self.ndim
    v, dv = tensor(nodes, x, d)
    cv, cd = tensor([-1., 1.], x, d)
    del cv
    J = np.einsum('iqc,ecj->eqij', cd, X)      # row i: along direction i
    inv = np.linalg.inv(J)                     # [e, q, j, i]
    det = np.linalg.det(J)
    if (det <= 0).any():
      raise HarnessError('an element is turned inside out')
    return v, np.einsum('iqn,eqji->jeqn', dv, inv), det * kron([w] * d).reshape(-1)

  def asm(self, local):
    """[e, n, ...] -> [N, ...]"""
    out = np.zeros((self.N,) + local.shape[2:], local.dtype)
    np.add.at(out, self.loc.reshape(-1), local.reshape((-1,) + local.shape[2:]))
    return out

  def mask(self, f):
    return f * self.free[:, None]

  def tight(self, u):
    """Straight between corners, and what goes in comes out."""
    u = self.P @ u
    flux = self.D.sum(axis=1).T                # [N, d]
    by = self.P.T @ flux
    size = (by * by).sum()
    if size > 1e-20:
      u = u - self.P @ by * ((flux * u).sum() / size)
    return u

  def load(self, f):
    """[every node, d] forces, summed over copies."""
    out = np.zeros((self.N,) + f.shape[1:], f.dtype)
    np.add.at(out, self.cls, self.own[:, None] * f)
    return self.mask(out)

  def convect(self, u):
    v, dv, wd = self.O
    ul = u[self.loc]
    at = np.einsum('qn,enk->eqk', v, ul)
    du = np.einsum('jeqn,enk->eqjk', dv, ul)
    adv = np.einsum('eqj,eqjk->eqk', at, du) * wd[:, :, None]
    return self.mask(self.asm(np.einsum('qn,eqk->enk', v, adv)))

  def vorticity(self, u):
    _, dv, _ = self.G
    du = np.einsum('jeqn,enk->eqjk', dv, u[self.loc])
    return self.asm(du[:, :, 0, 1] - du[:, :, 1, 0]) / self.count

  def div(self, u):
    return np.einsum('jpn,nj->p', self.D, u)

  def push(self, p):
    return np.einsum('jpn,p->nj', self.D, p) * self.free[:, None]

  def step(self, us, ps, f, mu, dt, k, alpha, ub, project):
    """f: what is already summed over elements."""
    b = BDF[k]
    pe = 2 * ps[-1] - ps[-2]
    rhs = f + self.push(pe) - self.mask(self.mass[:, None] * sum(
        c * u for c, u in zip(b, us))) / dt
    H = b[-1] / dt * np.diag(self.mass) + mu * self.K
    if ub is not None:
      rhs = rhs - self.mask(H @ ub)
    i = np.flatnonzero(self.free)
    u = np.zeros(self.first.shape, rhs.dtype)
    if len(i):
      u[i] = np.linalg.solve(H[np.ix_(i, i)], rhs[i])
    if ub is not None:
      u = u + ub
    smooth = self.asm(np.einsum('mn,enk->emk', self.F, u[self.loc])) / (
        self.count[:, None])
    u = (1 - alpha) * u + alpha * smooth
    scale = b[-1] / dt
    dp = -scale * (self.Sinv @ self.div(u))
    if self.closed and project:
      dp = self.center @ dp
    u = u + self.push(dp) / self.mass[:, None] / scale
    return u, pe + dp

  # -- the same nodes elsewhere
  def find(self, coords, what):
    """Of every node the code has, which one it is here."""
    mine = self.coords if what == 'velocity' else self.pcoords
    coords = np.asarray(coords, np.float64)
    check(coords.shape == mine.shape, 'nodes', lambda: (
        f'{what} nodes have shape {coords.shape}, should have {mine.shape}'))
    dist = np.abs(coords[:, None] - mine[None]).max(axis=-1)
    i = dist.argmin(axis=1)
    off = dist[np.arange(len(i)), i]
    check(len(set(i.tolist())) == len(i) and off.max() < 2e-5, 'nodes', lambda: (
        f'{what} node {off.argmax()} at {coords[off.argmax()].tolist()} is none '
        f'of this mesh'))
    return self.cls[i] if what == 'velocity' else i
