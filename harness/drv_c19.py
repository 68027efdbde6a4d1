"""C19: body forces, banded forces, vorticity-space forces, random waves, analytic flow."""
import functools
import math
import numpy as np
import vlib
from vlib import leave_out, rng_for, dy, dyarr, arr, fx, field, gridj, offj
import jax
import jax.numpy as jnp
from jax_cfd.base import forcings as bf, grids, boundaries as bd, validation_problems as vp
from jax_cfd.ml import forcings as mf
from jax_cfd.spectral import forcings as sf

KINDS = ['force', 'band', 'force', 'vort', 'force', 'tgflow', 'waves', 'force', 'band', 'refuse']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(400 if tier == 'quick' else 6000)]


def run(spec):
  r = rng_for(spec['seed'], 'c19', spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r, spec)


def grid_of(r, nd=None, big=6, even_last=False):
  nd = nd or r.choice([2, 2, 3])
  top = {1: 12, 2: big, 3: 4}[nd]
  shape = [r.randint(2, top) for _ in range(nd)]
  if even_last and shape[-1] % 2:
    shape[-1] += 1
  dom = []
  for _ in range(nd):
    lo = r.choice([0., 0., -1., .5])
    dom.append((lo, lo + r.choice([1., 2., 3., 2 * math.pi, 2 * math.pi, 4.])))
  return grids.Grid(tuple(shape), domain=tuple(dom))


def velocity(r, grid, offs=None, bcs=None):
  offs = offs or grid.cell_faces
  bc = bcs or r.choice([bd.periodic_boundary_conditions(grid.ndim), bd.dirichlet_boundary_conditions(grid.ndim)])
  return tuple(grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, grid.shape, -2, 2)), o, grid), bc) for o in offs)


def results(z):
  return [field(a) for a in z]


def evaluate(make, v):
  try:
    f = make()
    z = f(v)
    return dict(e=''), results(z)
  except Exception as e:  # pylint: disable=broad-except
    return vlib.err(e), []


def rand_offs(r, nd):
  return tuple(tuple(r.choice([0., .25, .5, 1.]) for _ in range(nd)) for _ in range(nd))


def term(r, grid, depth=0):
  """(term of the specification, constructor of the real force)."""
  t = r.choice(['kol', 'kol', 'tg', 'lin', 'zero'] + (['sum', 'simple', 'mlkol', 'mltg'] if depth < 2 else []))
  nd = grid.ndim
  if t == 'zero':
    return dict(t='zero'), r.choice([lambda: bf.no_forcing(grid), lambda: mf.no_forcing(grid)])
  if t == 'lin':
    c = r.choice([dy(r, -1, 1), .1, -.1])
    return dict(t='lin', c=fx(c)), r.choice([lambda: bf.linear_forcing(grid, c), lambda: mf.linear_forcing(grid, c)])
  a, k = dy(r, -2, 2), r.randint(0, 4)
  if t == 'tg':
    if r.random() < .2:
      return dict(t='tg', a=fx(1), k=2), lambda: bf.taylor_green_forcing(grid)
    kw, q = leave_out(r, dict(scale=a, k=k), dict(scale=1, k=2))
    return dict(t='tg', a=fx(q['scale']), k=q['k']), lambda: bf.taylor_green_forcing(grid, **kw)
  swap = r.random() < .5
  offs = rand_offs(r, nd) if depth == 0 and r.random() < .4 else None
  oj = [] if offs is None else [offj(o) for o in offs]
  if t == 'kol':
    if nd == 2 and depth == 0 and r.random() < .15:
      return dict(t='kol', a=fx(1), k=4, swap=False, off=[[0, 0], [0, 0]]), lambda: mf.spectral_kolmogorov_forcing(grid)
    kw = {}
    if swap or r.random() < .5:
      kw['swap_xy'] = swap
    if offs is not None or r.random() < .3:
      kw['offsets'] = offs
    kw1, q = leave_out(r, dict(scale=a, k=k), dict(scale=1, k=2))
    return dict(t='kol', a=fx(q['scale']), k=q['k'], swap=swap, off=oj), lambda: bf.kolmogorov_forcing(grid, **kw1, **kw)
  c = r.choice([0, 0, dy(r, -1, 1)])
  if t == 'mlkol':
    kw, q = leave_out(r, dict(scale=a, wavenumber=k, linear_coefficient=c, swap_xy=swap), dict(scale=0, wavenumber=2, linear_coefficient=0, swap_xy=False))
    a, k, c, swap = q['scale'], q['wavenumber'], q['linear_coefficient'], q['swap_xy']
    kol = dict(t='kol', a=fx(a), k=k, swap=swap, off=oj)
    e = kol if c == 0 else dict(t='sum', p=[kol, dict(t='lin', c=fx(c))])
    return e, lambda: mf.kolmogorov_forcing(grid, offsets=offs, **kw)
  if t == 'mltg':
    kw, q = leave_out(r, dict(scale=a, wavenumber=k, linear_coefficient=c), dict(scale=0, wavenumber=2, linear_coefficient=0))
    a, k, c = q['scale'], q['wavenumber'], q['linear_coefficient']
    tg = dict(t='tg', a=fx(a), k=k)
    e = tg if c == 0 else dict(t='sum', p=[tg, dict(t='lin', c=fx(c))])
    return e, lambda: mf.taylor_green_forcing(grid, **kw)
  if t == 'simple':
    tg = r.random() < .5
    kw = dict(constant_magnitude=a, constant_wavenumber=k, linear_coefficient=c, forcing_type='taylor_green' if tg else 'kolmogorov')
    if r.random() < .2:
      kw.pop('constant_magnitude')
      a = 0
    if r.random() < .2:
      kw.pop('constant_wavenumber')
      k = 2
    if not tg and r.random() < .5:
      kw.pop('forcing_type')
    if c == 0 and r.random() < .5:
      kw.pop('linear_coefficient')
    const = dict(t='tg', a=fx(a), k=k) if tg else dict(t='kol', a=fx(a), k=k, swap=False, off=[])
    return dict(t='sum', p=[dict(t='lin', c=fx(c)), const]), lambda: bf.simple_turbulence_forcing(grid, **kw)
  parts = [term(r, grid, depth + 1 if r.random() < .8 else 0) for _ in range(r.randint(1, 3))]
  add = r.choice([bf.sum_forcings, mf.sum_forcings])
  return dict(t='sum', p=[p[0] for p in parts]), lambda: add(*[p[1]() for p in parts])


def ev_force(op, e, grid, v, out, outs, tol, k):
  return dict(op=op, k=k, e=e, g=gridj(grid), v=[field(u) for u in v], out=out, outs=outs, tol=tol)


def do_force(r, spec):
  grid = grid_of(r)
  e, make = term(r, grid)
  ev = []
  try:
    f, err = make(), None
  except Exception as x:  # pylint: disable=broad-except
    f, err = None, vlib.err(x)
  for _ in range(r.randint(1, 2)):        # a force is a function: asked twice, for two velocities
    offs = None if r.random() < .85 else rand_offs(r, grid.ndim)
    v = velocity(r, grid, offs)
    if f is None:
      out, outs = err, []
    else:
      g = jax.jit(lambda v: f(v)) if r.random() < .2 else f
      out, outs = evaluate(lambda: g, v)
    ev.append(ev_force('force', e, grid, v, out, outs, 96, '%s on %s' % (e['t'], grid.shape)))
  return ev


def do_band(r, spec):
  nd = r.choice([1, 2, 2, 3])
  grid = grid_of(r, nd, 5)
  v = velocity(r, grid, bcs=bd.periodic_boundary_conditions(nd))
  N = int(np.prod(grid.shape))
  if r.random() < .6:
    lo = r.choice([0., r.randint(0, 16) / 8 + 1 / 32])
    hi = r.choice([4., lo + r.randint(0, 12) / 8 + 1 / 16])
    c = dy(r, -2, 2)
    e = dict(t='band', lo=fx(lo), hi=fx(hi), c=fx(c))
    make = r.choice([lambda: bf.filtered_linear_forcing(lo, hi, c, grid), lambda: mf.filtered_linear_forcing(grid, c, lo, hi)])
    if lo == 0 and hi == 4 and r.random() < .5:
      make = lambda: mf.filtered_linear_forcing(grid, c)
    amp = abs(c)
  else:
    w = [dy(r, -1, 1), r.choice([0, 1 / 16, -1 / 8]), r.choice([0, 1 / 256])]
    e = dict(t='poly', w=[fx(x) for x in w])
    fn = lambda k: w[0] + w[1] * k + w[2] * k * k
    make = lambda: bf.filtered_forcing(fn, grid)
    top = 2 * math.pi * math.sqrt(sum((.5 / h) ** 2 for h in grid.step))
    amp = abs(w[0]) + abs(w[1]) * top + abs(w[2]) * top * top
  out, outs = evaluate(make, v)
  return [ev_force('band', e, grid, v, out, outs, int(64 * N * (1 + amp)), '%s on %s' % (e['t'], grid.shape))]


def do_vort(r, spec):
  grid = grid_of(r, 2, 6, even_last=True)
  swap, a, k, c = r.random() < .5, dy(r, -1, 1), r.randint(0, 3), r.choice([0, dy(r, -1, 1)])
  kol = dict(t='kol', a=fx(a), k=k, swap=swap, off=[[0, 0], [0, 0]])
  mod = functools.partial(mf.kolmogorov_forcing, scale=a, wavenumber=k, linear_coefficient=c, swap_xy=swap)
  if r.random() < .2:
    kol = dict(t='zero')
    mod = lambda g, offsets: bf.linear_forcing(g, c)
  w = dyarr(r, grid.shape + (1,), -1, 1)
  _, out = vlib.call(lambda: mf.vorticity_space_forcing(grid, mod)(jnp.asarray(w)), lambda z: dict(arr(z), e=''))
  ku = [2 * math.pi / (d[1] - d[0]) for d in grid.domain]
  top = max(u * n / 2 for u, n in zip(ku, grid.shape))
  N = int(np.prod(grid.shape))
  return [dict(op='vort', k='grid %s' % (grid.shape,), g=gridj(grid), ku=[fx(x) for x in ku], e=kol, c=fx(c), w=arr(w[..., 0]), out=out,
               tol=int(64 * N * (1 + top)))]


def do_waves(r, spec):
  n = r.randint(13, 18)
  grid = grids.Grid((n,), domain=((0, 2 * math.pi),))
  waves = r.choice([1, 1, 2, 20])
  seed = r.randint(0, 50)
  kw = dict(seed=seed, n=waves)
  if waves == 20 and r.random() < .5:
    del kw['n']
  dt = r.choice([.5, 1., 2.])
  o = r.choice([1, 2, 4])

  def all_():
    f = sf.random_forcing_module(grid, **kw)
    g = jax.jit(f) if r.random() < .3 else f
    fs = [g(t * dt) for t in range(4)]
    moved = sf.random_forcing_module(grid, offset=(o / 4,), **kw)(0.)
    again = sf.random_forcing_module(grid, **kw)(0.)
    other = sf.random_forcing_module(grid, **dict(kw, seed=seed + 1))(0.)
    return fs, moved, again, other

  try:
    fs, moved, again, other = all_()
    return [dict(op='waves', k='%d waves on %d points' % (waves, n), n=n, waves=waves, f=[arr(f) for f in fs], moved=arr(moved), o=o,
                 dt=fx(dt), again=arr(again), other=arr(other), tol=64 * n, out=dict(e=''))]
  except Exception as e:  # pylint: disable=broad-except
    return [dict(op='waves', k='raised', out=vlib.err(e))]


def do_tgflow(r, spec):
  shape = (r.randint(2, 6), r.randint(2, 6))
  rho, nu = r.choice([1., 1., 2., .5]), r.choice([0., .125, .25, 1 / 16])
  kx = r.choice([1, 1, 2, 3, -1, 0])
  ky = kx if r.random() < .5 else r.choice([1, 2, 3, -2, 0])
  t = r.choice([0., .5, 1., 2.])
  kw = dict(density=rho, viscosity=nu, kx=kx, ky=ky)
  if rho == 1 and r.random() < .5:
    del kw['density']
  if nu == 0 and r.random() < .5:
    del kw['viscosity']
  p = vp.TaylorGreen(shape, **kw)
  offs = None if r.random() < .5 else rand_offs(r, 2)
  try:
    z = p.velocity(t) if offs is None and r.random() < .5 else p.velocity(t, offs)
    out, outs = dict(e=''), results(z)
  except Exception as e:  # pylint: disable=broad-except
    out, outs = vlib.err(e), []
  for u in outs:
    u.pop('bc')
  return [dict(op='tgflow', k='%s waves (%d, %d)' % (shape, kx, ky), nu=fx(nu), rho=fx(rho), time=fx(t), kx=kx, ky=ky,
               off=[offj(o) for o in (offs or p.grid.cell_faces)],
               g=dict(gridj(grids.Grid(shape, domain=((0, 2 * math.pi),) * 2))), out=out, outs=outs, tol=96)]


def do_refuse(r, spec):
  grid = grid_of(r)
  bad = r.choice(['kolmogorov_', 'tg', '', 'linear'])
  _, out = vlib.call(lambda: bf.simple_turbulence_forcing(grid, 1., 2, .1, forcing_type=bad), lambda z: dict(e=''))
  return [dict(op='refuse', k='forcing type %r' % bad, out=out, want='ValueError')]
