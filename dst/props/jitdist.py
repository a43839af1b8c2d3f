"""C07 (distributed compilation) and C08 (semi-traced scalars)."""
import operator

import jax
import jax.numpy as jnp
from jax import lax
import numpy as np

from dst import intercept, spmd, spmdgen
from dst.core import check
from dst.props import router as rt

from swirl_fem.communication.jit_distributed import jit_distributed
from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar


# ---------------------------------------------------------------- C07 --------
STATICS = {
    'int': [0, 1, 2, 5, -3],
    'str': ['a', 'bb', 'sum', ''],
    'bool': [True, False],
    'tuple': [[], [1], [1, 2], [3, 0, 1]],
    'none': [None, 1, 4],
    # (jax.jit takes equal static values, such as 1 and 1.0, for the same)
    'mixed': [0, 1, '1', 2.5, None, 0.25],
    'object': [{'x': 1}, {'x': 2}, {'x': 3}, {'x': 5}],
}
ATYPES = ['int32', 'int32', 'float32', 'int16', 'uint8']
WIDE = ['int64', 'float64', 'uint64']


class Setting:
  """A static argument whose identity is neither its print nor its hash."""

  def __init__(self, x):
    self.x = x

  def __eq__(self, other):
    return isinstance(other, Setting) and self.x == other.x

  def __hash__(self):
    return self.x % 2

  def __repr__(self):
    return 'Setting()'


def static_number(v):
  if v is None:
    return 11
  if isinstance(v, Setting):
    return 71 * v.x
  if isinstance(v, bool):
    return 17 if v else 23
  if isinstance(v, int):
    return v * 31
  if isinstance(v, float):
    return 59 + int(v * 62)
  if isinstance(v, str):
    return 37 + sum(map(ord, v))
  return 41 + sum((i + 2) * x for i, x in enumerate(v)) + len(v)


def gen_params(rng, wide=False):
  """Parameters of a random function."""
  types = ATYPES + (WIDE if wide else [])
  explicit = rng.chance(0.45)
  na = rng.weighted([(0, 1), (1, 4), (2, 4), (3, 1)])
  ns = rng.weighted([(0, 2), (1, 3), (2, 2)])
  ps = ([dict(role='array') for _ in range(na)]
        + [dict(role='static') for _ in range(ns)])
  rng.shuffle(ps)
  for k, p in enumerate(ps):
    p['name'] = f'p{k}'
    if p['role'] == 'array':
      p['tree'] = rng.choice(rt.TREES) if rng.chance(0.4) else 'leaf'
      n = 1 if p['tree'] == 'leaf' else rng.int(1, 3)
      p['leaves'] = [[rng.choice(types), rng.choice([[], [2], [3, 2], [1]])]
                     for _ in range(n)]
      # without explicit names, keyword-only parameters are the static ones
      p['kwonly'] = explicit and rng.chance(0.25)
      p['default'] = rng.chance(0.2)
    else:
      p['stype'] = rng.choice(list(STATICS))
      p['kwonly'] = (not explicit) or rng.chance(0.5)
      p['default'] = rng.chance(0.4)
  pos = [p for p in ps if not p['kwonly']]
  kwo = [p for p in ps if p['kwonly']]
  # defaults only in a suffix of the positional parameters
  pos = ([p for p in pos if not p['default']]
         + [p for p in pos if p['default']])
  for p in pos + kwo:
    if p['role'] == 'static' and p['default']:
      p['dval'] = rng.choice(STATICS[p['stype']])
    if p['role'] == 'array' and p['default'] and rng.chance(0.6):
      p['dseed'] = rng.getrandbits(30)     # an array for every device
  return pos + kwo, explicit


def gen_c07(c, rng, tier):
  mesh = rt.gen_mesh(c)
  wide = c.chance(0.3)
  params, explicit = gen_params(c, wide)
  w = dict(mesh=mesh, params=params, explicit=explicit, x64=wide,
           out=c.choice(['leaf', 'tuple', 'dict', 'nested']),
           use_idx=c.chance(0.6), use_sum=c.chance(0.5), ring=c.chance(0.4))
  calls = []
  for _ in range(rng.int(1, 4)):
    call = dict(seed=rng.getrandbits(30), static={}, omit=[], bykw=[],
                np_in=rng.chance(0.5), order=rng.getrandbits(16),
                grow=rng.weighted([(0, 4), (1, 1)]))
    kw = False
    for p in params:
      # a call of a function with array parameters passes at least one array
      needed = p['role'] == 'array' and not any(
          q['role'] == 'array' and q['name'] not in call['omit']
          for q in params if q is not p)
      if p['default'] and not needed and rng.chance(0.5):
        call['omit'].append(p['name'])
        kw = True
        continue
      if p['role'] == 'static':
        call['static'][p['name']] = rng.choice(STATICS[p['stype']])
      kw = kw or p['kwonly'] or rng.chance(0.2)
      if kw:
        call['bykw'].append(p['name'])
    calls.append(call)
  w['calls'] = calls
  ndev = mesh['P'] * mesh.get('Q', 1)
  faults = spmdgen.network_faults(rng, ndev, dispatches=len(calls), msgs=30)
  if rng.chance(0.1):
    faults += spmdgen.crash_faults(rng, ndev, dispatches=len(calls))
  return {'workload': w, 'sched': spmdgen.schedule(rng), 'faults': faults}


def combine(leaf, xp, s, idx, w, total, prev):
  """What the function computes for one array leaf on one device."""
  out = leaf * xp.asarray(1 + (s % 5), dtype=leaf.dtype)
  if w['use_idx']:
    out = out + xp.asarray(idx).astype(leaf.dtype)
  if total is not None:
    out = out + total
  if prev is not None:
    out = out - prev
  return out


def out_tree(kind, leaves, s):
  if not leaves:
    return None
  if kind == 'leaf' and len(leaves) == 1:
    return leaves[0]
  if kind == 'tuple':
    return tuple(leaves) if s % 2 else tuple(leaves[::-1])
  if kind == 'dict':
    return {f'r{i}': l for i, l in enumerate(leaves)}
  return {'a': [leaves[0]], 'b': tuple(leaves[1:]), 'c': (leaves[-1],)}


_fns = {}


def build_c07(w):
  key = repr({k: w[k] for k in ('mesh', 'params', 'explicit', 'out', 'use_idx',
                                'use_sum', 'ring')})
  if key in _fns:
    return _fns[key]
  mesh, axis = rt.make_mesh(w['mesh'])
  P = w['mesh']['P']
  params = w['params']

  def body(vals):
    s = sum((k + 1) * static_number(vals[p['name']])
            for k, p in enumerate(params) if p['role'] == 'static')
    idx = lax.axis_index(axis)
    leaves = [l for p in params if p['role'] == 'array'
              for l in jax.tree_util.tree_leaves(vals[p['name']])]
    outs = []
    for l in leaves:
      total = lax.psum(l, axis) if w['use_sum'] else None
      prev = (lax.ppermute(l, axis, [(i, (i + 1) % P) for i in range(P)])
              if w['ring'] else None)
      outs.append(combine(l, jnp, s, idx, w, total, prev))
    outs.append(jnp.asarray(s + (3 * idx if w['use_idx'] else 0), jnp.int32))
    return out_tree(w['out'], outs, s)

  sig, star = [], False
  for p in params:
    if p['kwonly'] and not star:
      sig.append('*')
      star = True
    d = ''
    if p['default']:
      d = (f'=dv_{p["name"]}' if p['role'] == 'array'
           else f'=dv_{p["name"]}')
    sig.append(p['name'] + d)
  src = (f'def f({", ".join(sig)}):\n'
         f'  return body(dict({", ".join(p["name"] + "=" + p["name"] for p in params)}))\n')
  ns = {'body': body}
  for p in params:
    if p['default']:
      ns['dv_' + p['name']] = (default_of(p, P) if p['role'] == 'array'
                               else static_py(p['dval']))
  exec(src, ns)  # pylint: disable=exec-used
  kw = {}
  if w['explicit']:
    kw['static_argnames'] = [p['name'] for p in params if p['role'] == 'static']
  fn = jit_distributed(ns['f'], mesh, axis, **kw)
  if len(_fns) > 40:
    _fns.clear()
  _fns[key] = fn
  return fn


def default_of(p, P):
  if p.get('dseed') is None:
    return None
  r = np.random.RandomState(p['dseed'])
  return rt.build_tree(p['tree'], [
      r.randint(0, 9, size=[P] + sh).astype(dt) for dt, sh in p['leaves']])


def static_py(v):
  if isinstance(v, dict):
    return Setting(v['x'])
  return tuple(v) if isinstance(v, list) else v


def run_c07(ctx):
  w = ctx.w
  P = w['mesh']['P']
  sim = spmd.Sim(ctx)
  fn = build_c07(w)
  for call in w['calls']:
    vals, args, kwargs = {}, [], {}
    prng = np.random.RandomState(call['seed'])
    for p in w['params']:
      name = p['name']
      if p['role'] == 'array':
        ls = []
        for dt, sh in p['leaves']:
          sh = ([sh[0] + call['grow']] + sh[1:]) if sh else sh
          ls.append(prng.randint(0, 9, size=[P] + sh).astype(dt))
        v = rt.build_tree(p['tree'], ls)
        if not call['np_in']:
          v = jax.tree_util.tree_map(jnp.asarray, v)
        if name in call['omit']:
          v = default_of(p, P)
          if v is not None:
            ctx.stats.probe('array_default_used')
      else:
        v = (static_py(p.get('dval')) if name in call['omit']
             else static_py(call['static'][name]))
      vals[name] = v
      if name in call['omit']:
        continue
      if name in call['bykw']:
        kwargs[name] = v
      else:
        args.append(v)
    if call['order'] % 2:
      kwargs = dict(reversed(list(kwargs.items())))
    with intercept.active(sim):
      got = spmdgen.with_retries(lambda: fn(*args, **kwargs), ctx.stats)
    # every device on its own slice, in plain numpy
    s = sum((k + 1) * static_number(vals[p['name']])
            for k, p in enumerate(w['params']) if p['role'] == 'static')
    leaves = [np.asarray(l) for p in w['params'] if p['role'] == 'array'
              for l in jax.tree_util.tree_leaves(vals[p['name']])]
    outs = []
    for l in leaves:
      tot = np.sum(l, axis=0, dtype=l.dtype) if w['use_sum'] else None
      rows = [combine(l[d], np, s, d, w, tot, l[d - 1] if w['ring'] else None)
              for d in range(P)]
      outs.append(np.stack(rows).astype(l.dtype))
    outs.append(np.array([s + (3 * d if w['use_idx'] else 0)
                          for d in range(P)], np.int32))
    want = out_tree(w['out'], outs, s)
    check(jax.tree_util.tree_structure(got)
          == jax.tree_util.tree_structure(want), 'structure',
          'the structure of the result changed')
    for a, b in zip(jax.tree_util.tree_leaves(got),
                    jax.tree_util.tree_leaves(want)):
      a = np.asarray(a)
      check(a.shape == b.shape and a.dtype == b.dtype, 'shape',
            f'result is {a.shape} {a.dtype}, expected {b.shape} {b.dtype}')
      check(np.array_equal(a, b), 'result', lambda: (
          f'got {a.tolist()}, expected {b.tolist()}'[:500]))
    if not leaves:
      ctx.stats.probe('no_array_arguments')
    if call['static']:
      ctx.stats.probe('static_arguments')
    if call['omit']:
      ctx.stats.probe('defaults_used')
    if any(p['role'] == 'array' and p['name'] in kwargs for p in w['params']):
      ctx.stats.probe('array_by_keyword')
  ctx.nontrivial = P > 1


# ---------------------------------------------------------------- C08 --------
ARITH = ['add', 'sub', 'mul', 'floordiv', 'mod', 'pow', 'lshift', 'rshift',
         'and', 'xor', 'or']
COMP = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']


class Reject(Exception):
  pass


def ev_ref(e, idx, n):
  """Exact integer value of an expression on device idx of n."""
  k = e[0]
  if k == 'idx':
    return idx
  if k == 'size':
    return n
  if k in ('const', 'lit'):
    return e[1]
  if k == 'where':
    c = ev_ref(e[1], idx, n)
    a, b = ev_ref(e[2], idx, n), ev_ref(e[3], idx, n)
    if isinstance(a, bool) != isinstance(b, bool):
      raise Reject
    return a if c else b
  a, b = ev_ref(e[1], idx, n), ev_ref(e[2], idx, n)
  ba, bb = isinstance(a, bool), isinstance(b, bool)
  if k in COMP:
    if ba != bb or (ba and k not in ('eq', 'ne')):
      raise Reject
    return bool(getattr(operator, k)(a, b))
  if k in ('and', 'or', 'xor'):
    if ba != bb:
      raise Reject
    return getattr(operator, '__' + k + '__')(a, b)
  if ba or bb:
    raise Reject
  if k in ('floordiv', 'mod', 'truediv') and b == 0:
    raise Reject
  if k == 'pow' and (b < 0 or b > 6 or abs(a) > 30):
    raise Reject
  if k in ('lshift', 'rshift') and not 0 <= b <= 8:
    raise Reject
  if k == 'truediv':
    return a / b
  fa, fb = isinstance(a, float), isinstance(b, float)
  if (fa or fb) and k not in ('add', 'sub', 'mul'):
    raise Reject
  v = getattr(operator, '__' + k + '__')(a, b)
  if abs(v) > 1 << 28 or (fa or fb) and float(np.float32(v)) != v:
    raise Reject
  return v


def number(rng, kind):
  v = rng.int(-3, 9)
  return v + rng.choice([0.0, 0.25, 0.5, 0.75]) if kind == 'float' else v


def gen_expr(rng, depth, want='int'):
  if want == 'bool':
    r = rng.random()
    if depth > 1 and r < 0.3:
      return [rng.choice(['and', 'or', 'xor']), gen_expr(rng, depth - 1, 'bool'),
              gen_expr(rng, depth - 1, 'bool') if rng.chance(0.7)
              else ['lit', rng.chance(0.5)]]
    if rng.chance(0.08):
      return ['const', rng.chance(0.5)]
    kind = 'float' if rng.chance(0.2) else 'int'
    a, b = gen_expr(rng, depth - 1, kind), gen_expr(rng, depth - 1)
    if rng.chance(0.3):
      b = ['lit', number(rng, kind)]
    elif rng.chance(0.2):
      a = ['lit', number(rng, kind)]
    return [rng.choice(COMP), a, b]
  if want == 'float':
    if depth <= 0 or rng.chance(0.25):
      return ['const', number(rng, 'float')]
    if rng.chance(0.2):
      return ['where', gen_expr(rng, depth - 1, 'bool'),
              gen_expr(rng, depth - 1, 'float'),
              gen_expr(rng, depth - 1, rng.choice(['float', 'int']))]
    a, b = gen_expr(rng, depth - 1, 'float'), gen_expr(rng, depth - 1)
    if rng.chance(0.2):
      a, b = gen_expr(rng, depth - 1), ['lit', number(rng, 'float')]
    return [rng.choice(['add', 'sub', 'mul'])] + ([a, b] if rng.chance(0.5)
                                                  else [b, a])
  if depth <= 0 or rng.chance(0.12):
    return rng.weighted([(['idx'], 5), (['size'], 3),
                         (['const', rng.int(-3, 9)], 2)])
  if rng.chance(0.2):
    cond = rng.weighted([('bool', 4), ('int', 1)])    # any number is a truth
    return ['where', gen_expr(rng, depth - 1, cond),
            gen_expr(rng, depth - 1), gen_expr(rng, depth - 1)]
  a, b = gen_expr(rng, depth - 1), gen_expr(rng, depth - 1)
  r = rng.random()
  if r < 0.25:
    b = ['lit', rng.int(-3, 9)]
  elif r < 0.5:
    a = ['lit', rng.int(-3, 9)]
  return [rng.choice(ARITH + ['add', 'sub', 'mul']), a, b]


def has_traced(e):
  return e[0] in ('idx', 'size', 'const') or any(
      isinstance(x, list) and has_traced(x) for x in e[1:])


def check_shape_ok(e):
  """Every operator needs at least one tracked operand, every where three."""
  if e[0] in ('idx', 'size', 'const', 'lit'):
    return True
  if e[0] == 'where':
    return all(x[0] != 'lit' and check_shape_ok(x) for x in e[1:])
  return (any(x[0] != 'lit' for x in e[1:])
          and all(check_shape_ok(x) for x in e[1:]))


def valid(e, n):
  if not check_shape_ok(e):
    return False
  try:
    for i in range(n):
      ev_ref(e, i, n)
    return True
  except Reject:
    return False


def gen_c08(c, rng, tier):
  mesh = rt.gen_mesh(c)
  P = mesh['P']
  exprs = []
  want = 6
  tries = 0
  while len(exprs) < want and tries < 400:
    tries += 1
    e = gen_expr(c, c.int(1, 5), c.choice(['int', 'int', 'int', 'bool',
                                                 'bool', 'float']))
    if e[0] == 'lit' or not has_traced(e):
      continue
    if c.chance(0.15):
      e = ['truediv', e, ['lit', c.choice([2, 3, 7, -4])]]
      if c.chance(0.5):
        e = ['truediv', ['lit', c.int(1, 9)], ['add', e[1], ['const', 40]]]
    if valid(e, P):
      exprs.append(e)
  # a permutation given by an expression, used to really send something
  coprime = [a for a in range(1, P + 1) if np.gcd(a, P) == 1]
  perms = [['mod', ['add', ['mul', ['idx'], ['lit', c.choice(coprime)]],
                    ['const', c.randrange(P)]], ['size']],
           ['sub', ['sub', ['size'], ['lit', 1]], ['idx']],
           ['where', ['lt', ['idx'], ['floordiv', ['size'], ['lit', 2]]],
            ['add', ['idx'], ['floordiv', ['add', ['size'], ['lit', 1]], ['lit', 2]]],
            ['where', ['ge', ['idx'], ['floordiv', ['add', ['size'], ['lit', 1]], ['lit', 2]]],
             ['sub', ['idx'], ['floordiv', ['add', ['size'], ['lit', 1]], ['lit', 2]]],
             ['idx']]]]
  if P & (P - 1) == 0:
    perms.append(['xor', ['idx'], ['lit', c.randrange(P)]])
    perms.append(['xor', ['const', c.randrange(P)], ['idx']])
  w = dict(mesh=mesh, exprs=exprs or [['idx']], perm=c.choice(perms),
           x64=c.chance(0.3))
  ndev = P * mesh.get('Q', 1)
  return {'workload': w, 'sched': spmdgen.schedule(rng),
          'faults': spmdgen.network_faults(rng, ndev, dispatches=1, msgs=ndev,
                                           colls=2)}


def ev_semi(e, axis):
  k = e[0]
  if k == 'idx':
    return SemiTracedScalar.axis_index(axis)
  if k == 'size':
    return SemiTracedScalar.axis_size(axis)
  if k == 'const':
    return SemiTracedScalar.constant(e[1], axis)
  if k == 'lit':
    return e[1]
  if k == 'where':
    return SemiTracedScalar.where(*[ev_semi(x, axis) for x in e[1:]])
  a, b = ev_semi(e[1], axis), ev_semi(e[2], axis)
  if k in COMP:
    return getattr(operator, k)(a, b)
  return getattr(operator, '__' + k + '__')(a, b)


_semi = {}


def run_c08(ctx):
  w = ctx.w
  P = w['mesh']['P']
  mesh, axis = rt.make_mesh(w['mesh'])
  key = repr((w['mesh'], w['exprs'], w['perm'], w.get('x64')))
  if key not in _semi:
    if len(_semi) > 30:
      _semi.clear()
    tables = {}

    def f(x):
      outs = []
      for k, e in enumerate(w['exprs']):
        s = ev_semi(e, axis)
        tables[k] = np.array(s.global_)
        outs.append(jnp.asarray(s.local))
      t = ev_semi(w['perm'], axis)
      tables['perm'] = np.array(t.global_)
      got = lax.pshuffle(x, axis, t.global_)
      return outs, jnp.asarray(t.local), got

    _semi[key] = (jit_distributed(f, mesh, axis), tables)
  fn, tables = _semi[key]
  sim = spmd.Sim(ctx)
  x = np.arange(P, dtype=np.int32) * 7 + 1
  with intercept.active(sim):
    outs, target, got = fn(x)
  for k, e in enumerate(w['exprs']):
    table, local = tables[k], np.asarray(outs[k])
    want = np.array([ev_ref(e, i, P) for i in range(P)])
    check(table.shape == (P,), 'table', f'table of {e} has shape {table.shape}')
    for what, v in (('local', local), ('table', table)):
      if want.dtype == np.float64 and e[0] != 'truediv':
        ok = np.array_equal(v.astype(float), want)
      elif want.dtype == np.float64:
        ok = np.allclose(v.astype(float), want, rtol=1e-5, atol=1e-6)
      else:
        ok = np.array_equal(v.astype(np.int64), want.astype(np.int64))
      check(ok, what, lambda: (
          f'{e}: {what} values {v.tolist()}, expected {want.tolist()}'))
  target, got = np.asarray(target), np.asarray(got)
  # pshuffle: device i receives from table[i]; it believes its partner is
  # target[i], which must be the device whose data arrived
  check(np.array_equal(got, x[target]), 'schedule', lambda: (
      f'devices expect data of {target.tolist()}, received {got.tolist()}'))
  ctx.nontrivial = P > 1
  ctx.stats.probe('expressions', len(w['exprs']))


# ----------------------------------------------------------------------------
def gen(prop, cfg_rng, rng, tier):
  return (gen_c07 if prop == 'C07' else gen_c08)(cfg_rng, rng, tier)


def run(prop, ctx):
  (run_c07 if prop == 'C07' else run_c08)(ctx)


def subexprs(e):
  for x in e[1:]:
    if isinstance(x, list):
      if x[0] != 'lit':
        yield x
      yield from subexprs(x)


def shrink(w):
  if 'calls' in w:
    if len(w['calls']) > 1:
      for k in range(len(w['calls'])):
        yield {**w, 'calls': w['calls'][:k] + w['calls'][k + 1:]}
    for k, p in enumerate(w['params']):
      rest = w['params'][:k] + w['params'][k + 1:]
      yield {**w, 'params': rest}
    for flag in ('use_idx', 'use_sum', 'ring'):
      if w[flag]:
        yield {**w, flag: False}
    if w['mesh']['P'] > 2:
      yield {**w, 'mesh': {'kind': '1d', 'P': 2}}
  else:
    if len(w['exprs']) > 1:
      for e in w['exprs']:
        yield {**w, 'exprs': [e]}
    P = w['mesh']['P']
    for p in (2, 3):
      if p < P and all(valid(e, p) for e in w['exprs']):
        yield {**w, 'mesh': {'kind': '1d', 'P': p}, 'perm': ['idx']}
    for x in subexprs(w['exprs'][0]):
      if valid(x, P):
        yield {**w, 'exprs': [x]}
