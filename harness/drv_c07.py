"""C07: pressure projection and pressure solves."""
import functools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, offj, fx, bcj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, pressure, finite_differences as fd
from jax_cfd.collocated import pressure as cpressure
from drv_c01 import rand_grid, rand_bc, P, D, N
from drv_c03 import cfield


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(280 if tier == 'quick' else 3500)]


cg = functools.partial(pressure.solve_cg, rtol=1e-13, atol=1e-10, maxiter=500)
SOLVERS = dict(
    default=pressure.solve_fast_diag, cg=cg, channel=pressure.solve_fast_diag_channel_flow,
    matmul=functools.partial(pressure.solve_fast_diag, implementation='matmul'),
    fft=functools.partial(pressure.solve_fast_diag, implementation='fft'),
    rfft=functools.partial(pressure.solve_fast_diag, implementation='rfft'))


def velocity(r, g, walls, dtype, solenoidal=False):
  nd = g.ndim
  homog = r.random() < .4
  flux = [dy(r, -1, 1) for _ in range(nd)]
  us = []
  for c in range(nd):
    types = [(D, D) if w else (P, P) for w in walls]
    vals = []
    for ax in range(nd):
      if not walls[ax]:
        vals.append((None, None) if r.random() < .5 else (0., 0.))
      elif homog:
        vals.append((0., 0.))
      elif ax == c:       # normal component: equal flux through both walls
        vals.append((flux[ax], flux[ax]))
      else:
        vals.append((dy(r, -1, 1), dy(r, -1, 1)))
    bc = boundaries.HomogeneousBoundaryConditions(types) if homog and r.random() < .5 else boundaries.ConstantBoundaryConditions(types, vals)
    a = dyarr(r, g.shape, -2, 2, dtype=dtype)
    us.append((a, bc))
  if solenoidal and nd > 1:
    psi = dyarr(r, g.shape, -1, 1) * min(g.step)
    us = [(np.zeros(g.shape, dtype), b) for _, b in us]
    for ax in (0, 1):
      if walls[ax]:
        sl = [slice(None)] * nd; sl[ax] = -1; psi[tuple(sl)] = 0
    us[0] = (((psi - np.roll(psi, 1, 1)) / g.step[1]).astype(dtype), us[0][1])
    us[1] = ((-(psi - np.roll(psi, 1, 0)) / g.step[0]).astype(dtype), us[1][1])
  v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(a), o, g), bc) for (a, bc), o in zip(us, g.cell_faces))
  if any(walls) and (solenoidal or r.random() < .6):   # or a velocity whose wall values are not in place yet
    v = tuple(u.impose_bc() for u in v)
  return v


def run(spec):
  r = rng_for(spec['seed'], 'c07', spec['i'])
  kind = ['stag', 'stag', 'stag', 'stag', 'coll', 'solve'][spec['i'] % 6]
  nd = r.choice([1, 2, 2, 2, 3])
  g = rand_grid(r, nd, 2, 3 if nd == 3 else 6)
  dtype = r.choice([np.float64, np.float64, np.float32])
  tol = 2048 if dtype == np.float32 else 256
  ev = []
  walls = [r.random() < .4 for _ in range(nd)]
  if kind == 'coll':
    walls = [False] * nd
  wk = ''.join('W' if w else 'P' for w in walls)
  v = velocity(r, g, walls, dtype, r.random() < .15)
  jit = r.random() < .1
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  if kind == 'stag':
    names = ['default', r.choice(['cg', 'matmul', 'channel'])]
    if not any(walls):
      names.append('fft')
      if g.shape[-1] % 2 == 0:
        names.append('rfft')
      else:
        _, o = vlib.call(lambda: pressure.projection(v, SOLVERS['rfft']), lambda x: dict(e=''))
        ev.append(dict(op='refuse', k='rfft odd size', out=o, want='ValueError'))
    if dtype == np.float32:
      names = [n for n in names if n != 'cg']
    for n in names:
      outs, out = vlib.call(lambda: J(lambda x: pressure.projection(x, SOLVERS[n]))(v) if n != 'default' or r.random() < .5
                            else pressure.projection(v), lambda x: dict(e=''))
      ev.append(dict(op='project', k='projection %s %s' % (n, wk), w=[field(u) for u in v], out=out, tol=tol * (4 if n == 'cg' else 1),
                     outs=[field(u) for u in outs] if outs is not None else []))
    if dtype == np.float64 and not any(walls) and r.random() < .6:
      # the same flow at a small amplitude, with the solver's own tolerances (residual at most 1e-6)
      amp = 2.0 ** -10
      scaled = lambda vs, a: tuple(grids.GridVariable(u.array * a, u.bc) for u in vs)
      weak, out = vlib.call(lambda: scaled(J(lambda x: pressure.projection(x, pressure.solve_cg))(scaled(v, amp)), 1 / amp), lambda x: dict(e=''))
      ev.append(dict(op='project', k='projection cg defaults, weak flow %s' % wk, w=[field(u) for u in v], out=out, tol=2048,
                     outs=[field(u) for u in weak] if weak is not None else []))
    if outs is not None:
      again, out = vlib.call(lambda: pressure.projection(outs, SOLVERS[names[0]]), lambda x: dict(e=''))
      ev.append(dict(op='project', k='projection twice %s' % wk, w=[field(u) for u in outs], out=out, tol=tol,
                     outs=[field(u) for u in again] if again is not None else []))
    if nd > 1 and r.random() < .15:
      t = [(P, P)] * nd; t[0] = (D, D)
      mixed = (v[0],) + tuple(grids.GridVariable(u.array, boundaries.HomogeneousBoundaryConditions(t if not walls[0] else [(P, P)] * nd)) for u in v[1:])
      _, o = vlib.call(lambda: pressure.projection(mixed), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='mixed periodicity', out=o, want='InconsistentBoundaryConditionsError'))
  elif kind == 'coll':
    g = rand_grid(r, nd, 3, 3 if nd == 3 else 6)
    per = boundaries.periodic_boundary_conditions(nd)
    v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, g.shape, -2, 2)), g.cell_center, g), per) for _ in range(nd))
    solve = functools.partial(cpressure.solve_cg, rtol=1e-13, atol=1e-10, maxiter=500)
    q0 = grids.GridVariable(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g), per)
    q, o = vlib.call(lambda: J(lambda x: solve(x, q0))(v), cfield)
    fl = [field(u) for u in v]
    ev.append(dict(op='cosolve', k='collocated solve', w=fl, out=o, tol=1024, qbc=bcj(per)))
    if q is not None:
      outs, out = vlib.call(lambda: J(lambda x: cpressure.projection(x, solve))(v), lambda x: dict(e=''))
      ev.append(dict(op='coproject', k='collocated projection', w=fl, out=out, tol=1024, q=field(grids.GridVariable(q, per)),
                     qbc=bcj(per), outs=[field(u) for u in outs] if outs is not None else []))
  else:
    # solves with an explicitly given pressure condition
    types = []
    for w in walls:
      types.append(r.choice([(D, D), (N, N), (N, N), (D, N), (N, D)]) if w else (P, P))
    bc = boundaries.HomogeneousBoundaryConditions(types)
    nm = r.choice(['default', 'matmul', 'cg' if dtype == np.float64 and not all(N in t or P in t for t in types) else 'default'])
    if nm == 'cg':
      q0 = grids.GridVariable(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g), bc)
      fn = lambda x: cg(x, q0, bc)
    else:
      fn = lambda x: SOLVERS[nm](x, None, bc)
    _, out = vlib.call(lambda: J(fn)(v), cfield)
    ev.append(dict(op='solve', k='solve %s %s' % (nm, ' '.join(vlib.TYPES[a] + vlib.TYPES[b] for a, b in types)),
                   w=[field(u) for u in v], out=out, tol=4 * tol, qbc=bcj(bc)))
  return ev
