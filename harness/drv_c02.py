"""C02: impose_bc / trim_boundary / pad_and_impose_bc on arbitrarily padded fields."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries
from drv_c01 import rand_grid, rand_bc, UNTYPE, P, D, N


def sessions(seed, tier):
  q = tier == 'quick'
  gen = vlib.gen_lines(seed, 450 if q else 5000)
  return [dict(gen=g) for g in gen] + [dict(seed=seed, i=i) for i in range(400 if q else 5000)]


def rand_padded(r, bc, grid, maxpad=2):
  off, shape = [], []
  for ax, n in enumerate(grid.shape):
    t = bc.types[ax]
    if N in t:
      o, m = 0.5, n
    elif t[0] == P:
      o, m = r.choice([0.0, 0.5, 1.0]), n
    else:
      o, m = r.choice([(0.0, n), (0.5, n), (1.0, n), (1.0, max(n - 1, 1))])
    a, b = (r.randint(0, maxpad), r.randint(0, maxpad)) if r.random() < .5 else (0, 0)
    off.append(o - a); shape.append(m + a + b)
  return tuple(off), tuple(shape)



SPECIAL = [(1001., np.inf), (1002., -np.inf), (1003., np.nan), (1004., 1e30)]


def decode(x):
  """Field projection in which the special values stand for their codes."""
  a = getattr(x, 'array', x)
  d = np.array(a.data)
  for code, val in SPECIAL:
    d[np.isnan(d) if val != val else d == np.asarray(val, d.dtype)] = code
  y = grids.GridArray(d, a.offset, a.grid)
  return field(grids.GridVariable(y, x.bc) if isinstance(x, grids.GridVariable) else y)


def history(u, bc, key, ops, jit, special=None):
  ev = [dict(op='new', k=key, f=field(u, bc))]
  if special is not None:   # the recorded field holds codes, the real one the values they stand for
    key += ' special'
    u = special
  for op, to in ops:
    if op == 'impose':
      fn = lambda a: bc.impose_bc(a)
    elif op == 'imposev':
      fn = lambda a: grids.GridVariable(a, bc).impose_bc()
    elif op == 'interior':
      fn = lambda a: bc.trim_boundary(a)
    elif op == 'interiorv':
      fn = lambda a: grids.GridVariable(a, bc).trim_boundary()
    else:
      fn = lambda a: bc.pad_and_impose_bc(a, to) if to is not None else bc.pad_and_impose_bc(a)
    g = jax.jit(fn) if jit else fn
    res, out = vlib.call(lambda: g(u), decode if special is not None else None)
    e = dict(op=op.rstrip('v'), k=op + ' ' + key, out=out)
    if op == 'padimpose':
      e['to'] = vlib.offj(to if to is not None else u.offset)
      e['k'] += ' to=%s' % (to,)
    ev.append(e)
    if res is None:
      break
    u = res.array if isinstance(res, grids.GridVariable) else res
  return ev


def run(spec):
  if 'gen' in spec:
    f = spec['gen']['f']
    n = tuple(f['g']['n'])
    grid = grids.Grid(n, step=tuple(vlib.unfx(h) for h in f['g']['h']))
    bc = boundaries.ConstantBoundaryConditions(
        tuple(tuple(UNTYPE[x] for x in t) for t in f['bc']['t']),
        tuple(tuple(vlib.unfx(x) for x in b) for b in f['bc']['b']))
    off = tuple(o / 4 for o in f['o'])
    u = grids.GridArray(jnp.asarray(np.array([vlib.unfx(x) for x in f['v']]).reshape(f['s'])), off, grid)
    key = ' '.join('%s@%g' % (''.join(t), o) for t, o in zip(f['bc']['t'], off))
    return history(u, bc, key, [('impose', None), ('imposev', None), ('interior', None)], False)
  r = rng_for(spec['seed'], 'c02', spec['i'])
  grid = rand_grid(r, nmin=2, nmax=4)
  bc = rand_bc(r, grid.ndim)
  off, shape = rand_padded(r, bc, grid)
  dtype = np.float64 if r.random() < .6 else np.float32
  u = grids.GridArray(jnp.asarray(dyarr(r, shape, dtype=dtype)), off, grid)
  key = ' '.join('%s@%g' % (''.join(vlib.TYPES[x] for x in t), o) for t, o in zip(bc.types, off))
  ops = []
  first = r.choice(['impose', 'imposev', 'interior', 'interiorv', 'interior'])
  ops.append((first, None))
  if first.startswith('impose'):
    ops.append((r.choice(['impose', 'interior', 'interiorv']), None))
  else:
    # an interior field can be put back to either wall location
    to = []
    for ax in range(grid.ndim):
      t = bc.types[ax]
      if t == (D, D) and off[ax] % 1 == 0:
        to.append(r.choice([0.0, 1.0, 0.5]))
      else:
        to.append(off[ax])
    ops.append(('padimpose', tuple(to)))
    if all(not (t == (D, D) and o % 1 == 0) or x != 0.5 for t, o, x in zip(bc.types, off, to)):
      ops.append((r.choice(['impose', 'interior']), None))
  special = None
  if r.random() < .25:
    # values no arithmetic survives (infinite, undefined, huge) must be kept as they are too
    code = np.array(u.data); real = code.copy()
    for _ in range(2):
      c, v = r.choice(SPECIAL)
      k = tuple(r.randrange(n) for n in shape)
      code[k], real[k] = c, v
    u = grids.GridArray(jnp.asarray(code), off, grid)
    special = grids.GridArray(jnp.asarray(real), off, grid)
  return history(u, bc, key, ops, r.random() < .12, special)
