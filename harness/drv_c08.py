"""C08: diffusion, explicit and implicit."""
import functools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, offj, fx, gridj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, diffusion, equations, advection
from jax_cfd.collocated import diffusion as cdiffusion
from drv_c01 import rand_grid, rand_bc, P, D, N
from drv_c03 import cfield
from drv_c04 import gvar
from drv_c05 import loc_for, key_of


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(420 if tier == 'quick' else 6000)]


cg = functools.partial(diffusion.solve_cg, rtol=1e-13, atol=1e-12, maxiter=500)


def run(spec):
  r = rng_for(spec['seed'], 'c08', spec['i'])
  kind = ['imp', 'imp', 'imp', 'imp', 'exp', 'dt'][spec['i'] % 6]
  nd = r.choice([1, 2, 2, 2, 3])
  g = rand_grid(r, nd, 2, 3 if nd == 3 else 6)
  dtype = r.choice([np.float64, np.float64, np.float32])
  jit = r.random() < .1
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  ev = []
  if kind == 'imp':
    style = r.choice(['wall', 'wall', 'scalar', 'per', 'any'])
    if style == 'per':
      vs = tuple(gvar(r, g, r.choice(list(g.cell_faces) + [g.cell_center]), boundaries.periodic_boundary_conditions(nd), dtype) for _ in range(r.choice([1, nd])))
    elif style == 'wall':
      walls = [r.random() < .6 for _ in range(nd)]
      vs = tuple(gvar(r, g, g.cell_faces[c], rand_bc(r, nd, [(D, D) if w else (P, P) for w in walls]), dtype) for c in range(nd))
    else:
      vs = []
      bc0 = rand_bc(r, nd)
      for _ in range(1 if style == 'scalar' else nd):
        # every component shares the topology of the domain, not the type of its walls
        bc = rand_bc(r, nd, [t if t[0] == P else r.choice([(D, D), (N, N), (D, N), (N, D)]) for t in bc0.types])
        vs.append(gvar(r, g, g.cell_center if style == 'scalar' else loc_for(r, bc, nd), bc, dtype))
      vs = tuple(vs)
    if r.random() < .8:
      vs = tuple(v.impose_bc() for v in vs)
    nu, dt = r.choice([.125, .25, .5, 1., 2.]), r.choice([.0625, .125, .25, .5, 1.])
    kappa = nu * dt
    per = all(t[0] == P for v in vs for t in v.bc.types)
    names = [None] + ([r.choice(['matmul', 'fft'] + (['rfft'] if g.shape[-1] % 2 == 0 else [])), 'cg'] if per else [r.choice(['matmul', 'fft'])])
    for n in names:
      fn = (lambda v: cg(v, nu, dt)) if n == 'cg' else (lambda v: diffusion.solve_fast_diag(v, nu, dt, implementation=n) if n else diffusion.solve_fast_diag(v, nu, dt))
      outs, out = vlib.call(lambda: J(fn)(vs), lambda x: dict(e=''))
      rmax = max(1 / min(g.step) ** 2, 1)
      tol = int((64 + 16 * kappa * rmax * nd) * (12 if dtype == np.float32 else 1))
      ev.append(dict(op='implicit', k='implicit diffusion %s %s' % (n, '; '.join(key_of(v.bc, v.offset) for v in vs)),
                     w=[field(v) for v in vs], outs=[field(x) for x in outs] if outs is not None else [], out=out,
                     kappa=fx(kappa), tol=tol))
    if not per:
      _, o = vlib.call(lambda: cg(vs, nu, dt), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='solve_cg with walls', out=o, want='ValueError'))
    elif g.shape[-1] % 2:
      _, o = vlib.call(lambda: diffusion.solve_fast_diag(vs, nu, dt, implementation='rfft'), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='rfft odd size', out=o, want='ValueError'))
  elif kind == 'exp':
    bc = rand_bc(r, nd)
    off = loc_for(r, bc, nd)
    u = gvar(r, g, off, bc, dtype)
    nu = r.choice([0., .125, .5, 1., 3.])
    _, out = vlib.call(lambda: J(lambda x: diffusion.diffuse(x, nu))(u), cfield)
    ev.append(dict(op='rate', k='diffuse ' + key_of(bc, off), w=[field(u)], nu=fx(nu), out=out, tol=256 if dtype == np.float64 else 1024))
    g2 = rand_grid(r, nd, 3, 3 if nd == 3 else 5)
    bc = rand_bc(r, nd) if r.random() < .3 else boundaries.periodic_boundary_conditions(nd)
    u = gvar(r, g2, g2.cell_center, bc)
    _, out = vlib.call(lambda: J(lambda x: cdiffusion.diffuse(x, nu))(u), cfield)
    ev.append(dict(op='corate', k='collocated diffuse ' + key_of(bc, u.offset), w=[field(u)], nu=fx(nu), out=out, tol=256))
  else:
    for _ in range(6):
      g = rand_grid(r, None, 2, 6)
      nu = r.choice([0., 0.125, .5, 1., 2., 7.])
      v, o = vlib.call(lambda: float(diffusion.stable_time_step(nu, g)), lambda x: dict(e=''))
      ev.append(dict(op='dt', k='stable_time_step', nu=fx(nu), g=gridj(g), e=o['e'], inf=v == float('inf'), out=0 if v is None or v == float('inf') else fx(v)))
      umax, cn, imp = r.choice([.25, .5, 1., 2., 8.]), r.choice([.25, .5, 1.]), r.random() < .3
      v, o = vlib.call(lambda: float(equations.stable_time_step(umax, cn, nu, g, imp)), lambda x: dict(e=''))
      ev.append(dict(op='nsdt', k='equations.stable_time_step', nu=fx(nu), g=gridj(g), umax=fx(umax), cn=fx(cn), implicit=imp,
                     e=o['e'], out=0 if v is None else fx(v)))
  return ev
