"""C24: derivatives, batches and compiled versions of the operations."""
import functools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, offj, fx
import haiku as hk
import jax
import jax.numpy as jnp
from jax_cfd.base import (grids, boundaries, advection as adv, finite_differences as fd, interpolation as interp,
                          diffusion, pressure, equations, subgrid_models as sgm, funcutils, forcings, resize)
from jax_cfd.collocated import advection as cadv, diffusion as cdiff, pressure as cpress, equations as ceq
from jax_cfd.ml import model_builder, towers, advections as madv, interpolations as mint, physics_specifications as phys
from jax_cfd.spectral import equations as seq, time_stepping as sts, utils as sutils
from drv_c01 import rand_bc, P, D, N
from drv_c05 import loc_for, key_of
from drv_c06 import mkvar, hom

KINDS = ['linear', 'quad', 'relation', 'secant', 'kink', 'batch', 'unroll', 'linear', 'quad', 'secant', 'relation', 'learned', 'kink', 'spectral', 'unroll', 'batch']


SHAPES = {1: [(3,), (5,), (6,)], 2: [(3, 4), (4, 3), (5, 3), (4, 4)], 3: [(3, 3, 3), (3, 4, 3)]}


def rand_grid(r, nd, nmin=2, nmax=5):
  """Few shapes: each new shape costs compilation."""
  del nmin, nmax
  shape = r.choice(SHAPES[nd])
  steps = [r.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(nd)]
  lo = [r.choice([0.0, 0.0, -1.0, 0.5]) for _ in range(nd)]
  if all(x == 0 for x in lo) and r.random() < .5:
    return grids.Grid(shape, step=tuple(steps))
  return grids.Grid(shape, domain=tuple((l, l + n * h) for l, n, h in zip(lo, shape, steps)))


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(96 if tier == 'quick' else 2400)]


def amap(fn, *trees):
  return jax.tree.map(fn, *trees)


def rnd_like(r, tree, s=1.):
  return amap(lambda x: jnp.asarray(dyarr(r, x.shape, -s, s, 8)), tree)


def arrs(tree):
  return [arr(x) for x in jax.tree.leaves(tree)]


def generic(r, shape):
  """Values without ties."""
  return np.array([r.randint(-16384, 16384) / 16384. for _ in range(int(np.prod(shape)))]).reshape(shape)


def modes(r, F):
  """One of the ways JAX offers to differentiate; returns (y, dy, pullback)."""
  m = r.choice(['jvp', 'jvp', 'jit', 'linearize', 'remat', 'vmap', 'linear_transpose'])
  def go(x, t):
    G = F
    if m == 'jit':
      G = jax.jit(F)
    if m == 'remat':
      G = jax.checkpoint(F)
    if m == 'linearize':
      y, f = jax.linearize(F, x); d = f(t)
    elif m == 'jit':
      y, d = jax.jit(lambda a, b: jax.jvp(G, (a,), (b,)))(x, t)
    elif m == 'vmap':   # several perturbations at once
      many = amap(lambda a: jnp.stack([2 * a, a]), t)
      y = F(x)
      d = amap(lambda a: a[1], jax.vmap(lambda b: jax.jvp(F, (x,), (b,))[1])(many))
    else:
      y, d = jax.jvp(G, (x,), (t,))
    return y, d
  def back(x, c):
    if m == 'jit':
      return jax.jit(lambda a, b: jax.vjp(F, a)[1](b)[0])(x, c)
    if m == 'remat':
      return jax.vjp(jax.checkpoint(F), x)[1](c)[0]
    if m == 'linear_transpose':
      return jax.grad(lambda a: sum(jax.tree.leaves(amap(lambda p, q: (p * q).sum(), F(a), c))))(x)
    if m == 'vmap':
      many = amap(lambda a: jnp.stack([a, -a]), c)
      return amap(lambda a: a[0], jax.vmap(jax.vjp(F, x)[1])(many)[0])
    return jax.vjp(F, x)[1](c)[0]
  return m, go, back


def tangent(r, key, F, xs, rule, f='', p=None, tol=128, atol=16, ptol=4, ts=None, tscale=1.):
  """xs: a pytree of variables (or arrays)."""
  if rule == 'secant':   # generic directions
    ts = amap(lambda x: jnp.asarray(generic(r, x.shape)), xs)
  ts = rnd_like(r, xs, tscale) if ts is None else ts
  m, go, back = modes(r, F)
  e = dict(op='tangent', k='%s %s' % (key, m), f=f, p=p or dict(ax=1), rule=rule, tol=tol, atol=atol, ptol=ptol, e='',
           xs=[field(u) for u in jax.tree.leaves(xs, is_leaf=lambda a: isinstance(a, grids.GridVariable)) if isinstance(u, grids.GridVariable)],
           ts=arrs(ts), ys=[], y0=[], dys=[], cs=[], bs=[], chg=[], chg2=[])
  try:
    y0 = F(xs)
    y, d = go(xs, ts)
    c = rnd_like(r, y0)
    b = back(xs, c)
    e.update(ys=arrs(y), y0=arrs(y0), dys=arrs(d), cs=arrs(c), bs=arrs(b))
    if rule == 'secant':
      h = 2. ** -20
      sec = lambda h: amap(lambda q, w: (np.asarray(q) - np.asarray(w)) / h, F(amap(lambda q, w: q + h * w, xs, ts)), y0)
      e.update(chg=arrs(sec(h)), chg2=arrs(sec(-h)))
  except Exception as ex:  # pylint: disable=broad-except
    e['e'] = type(ex).__name__; e['msg'] = str(ex)[:200].encode('ascii', 'replace').decode()
  return e


def signed(r, shape):
  a = np.array([r.choice([-1, 1]) * r.choice([1., 1.25, 1.5, 2.]) for _ in range(int(np.prod(shape)))]).reshape(shape)
  return a


def vel(r, g, bc, offs=None, style='rand'):
  mk = dict(rand=lambda: dyarr(r, g.shape, -1, 1, 8), away=lambda: signed(r, g.shape), zero=lambda: np.zeros(g.shape),
            const=lambda v=dy(r, -1, 1): np.full(g.shape, dy(r, -1, 1)), ties=lambda: dyarr(r, g.shape, -1, 1, 1))[style]
  return tuple(mkvar(mk(), o, g, bc) for o in (offs or g.cell_faces))


def linear_case(r):
  nd = r.choice([1, 2, 2, 3])
  g = rand_grid(r, nd, 2, 5)
  bc = rand_bc(r, nd)
  off = loc_for(r, bc, nd)
  c = mkvar(dyarr(r, g.shape, -1, 1, 8), off, g, bc)
  per = hom([(P, P)] * nd)
  f = r.choice(['fwd', 'bwd', 'ctr', 'lap', 'div', 'cdiv', 'curl2', 'interp', 'rate', 'corate'])
  ax = r.randrange(nd)
  p = dict(ax=ax + 1, to=[2] * nd, c=0)
  if f in ('fwd', 'bwd', 'ctr'):
    fn = dict(fwd=fd.forward_difference, bwd=fd.backward_difference, ctr=fd.central_difference)[f]
    return f, p, (c,), (lambda x: fn(x[0], ax)), key_of(bc, off)
  if f == 'lap':
    return f, p, (c,), (lambda x: fd.laplacian(x[0])), key_of(bc, off)
  if f == 'div':
    return f, p, vel(r, g, walls_bc(r, nd)), fd.divergence, 'walls'
  if f == 'cdiv':
    return f, p, vel(r, g, per, [g.cell_center] * nd), fd.centered_divergence, 'periodic'
  if f == 'curl2':
    g = rand_grid(r, 2, 2, 5)
    per = hom([(P, P)] * 2)
    return f, p, vel(r, g, per), fd.curl_2d, 'periodic'
  if f == 'interp':
    to = tuple(o if t[0] != P and r.random() < .5 else r.choice([0., .5, 1.]) for o, t in zip(off, bc.types))
    to = tuple(o if t[0] != P and abs(o - q) > .5 else q for o, q, t in zip(off, to, bc.types))
    p['to'] = offj(to)
    return f, p, (c,), (lambda x: interp.linear(x[0], to)), key_of(bc, off)
  nu = r.choice([.25, .5, 1.])
  p['c'] = fx(nu)
  if f == 'rate':
    return f, p, (c,), (lambda x: diffusion.diffuse(x[0], nu)), key_of(bc, off)
  c = mkvar(c.data, off, g, per)
  return f, p, (c,), (lambda x: cdiff.diffuse(x[0], nu)), 'periodic'


def quad_case(r, style='away'):
  nd = r.choice([1, 2, 2, 3])
  g = rand_grid(r, nd, 3, 4 if nd > 1 else 6)
  per = hom([(P, P)] * nd)
  f = r.choice(['advlinear', 'advupwind', 'convect', 'colinear', 'coconvect'])
  dt = r.choice([.25, .5])
  p = dict(ax=1, to=[2] * nd, c=fx(dt))
  c = mkvar(dyarr(r, g.shape, -1, 1, 8), g.cell_center, g, per)
  if f == 'advlinear':
    return f, p, (c,) + vel(r, g, per), (lambda x: adv.advect_linear(x[0], x[1:], dt)), g
  if f == 'advupwind':
    return f, p, (c,) + vel(r, g, per, style=style), (lambda x: adv.advect_upwind(x[0], x[1:], dt)), g
  if f == 'convect':
    return f, p, vel(r, g, per), (lambda x: adv.convect_linear(x)), g
  v = vel(r, g, per, [g.cell_center] * nd)
  if f == 'colinear':
    return f, p, (c,) + v, (lambda x: cadv.advect_linear(x[0], x[1:], dt)), g
  return f, p, v, (lambda x: cadv.convect_linear(x)), g


def walls_bc(r, nd, values=True):
  ts, vs = [], []
  for _ in range(nd):
    if r.random() < .5:
      ts.append((P, P)); vs.append((0., 0.))
    else:
      ts.append((D, D)); q = dy(r, -1, 1) if values else 0.; vs.append((q, q))
  return boundaries.ConstantBoundaryConditions(ts, vs)


def relation_case(r):
  nd = r.choice([1, 2, 2, 3])
  g = rand_grid(r, nd, 2 if nd < 3 else 2, 5 if nd < 3 else 3)
  w = r.choice(['proj', 'proj', 'projcg', 'coproj', 'impl', 'implcg', 'implmat'])
  per = hom([(P, P)] * nd)
  if w == 'coproj':
    v = vel(r, g, per, [g.cell_center] * nd)
    s = functools.partial(cpress.solve_cg, rtol=1e-10, atol=1e-10, maxiter=400)
    return w, 'coprojection', {}, v, lambda x: cpress.projection(x, s), 4096, 1024
  if w in ('proj', 'projcg'):
    bc = walls_bc(r, nd) if w == 'proj' else per
    v = vel(r, g, bc)
    if w == 'proj':
      s = functools.partial(pressure.solve_fast_diag, implementation=r.choice([None, 'matmul', 'fft'] if bc.types == per.types else [None, 'matmul']))
      if s.keywords['implementation'] == 'fft' or r.random() < .3:
        s = pressure.solve_fast_diag
    else:
      s = functools.partial(pressure.solve_cg, rtol=1e-10, atol=1e-10, maxiter=400)
    return w, 'projection', {}, v, lambda x: pressure.projection(x, s), 1024, 256
  nu, dt = r.choice([.25, .5]), r.choice([.25, .5, 1.])
  if w == 'implcg':
    bc = per
    fn = lambda x: diffusion.solve_cg(x, nu, dt, rtol=1e-10, atol=1e-10, maxiter=400)
  else:
    bc = rand_bc(r, nd, [r.choice([(P, P), (D, D)]) for _ in range(nd)])
    fn = lambda x: diffusion.solve_fast_diag(x, nu, dt, implementation='matmul' if w == 'implmat' else None)
  return w, 'implicit', dict(c=fx(nu * dt), ax=1), vel(r, g, bc), fn, 1024, 256


def secant_case(r, style='rand'):
  nd = r.choice([1, 2, 2, 3]) if style == 'rand' else r.choice([1, 2, 2])
  g = rand_grid(r, nd, 3, 5 if nd < 3 else 3)
  g = grids.Grid(g.shape, step=g.step)
  per = hom([(P, P)] * nd)
  w = r.choice(['vanleer', 'vanleer2', 'semilag', 'smag', 'step', 'step', 'implicit', 'colloc', 'lw', 'down', 'tvd', 'force', 'stagconv'])
  dt = r.choice([.125, .25])
  mk = (lambda: generic(r, g.shape)) if style == 'rand' else (lambda: np.full(g.shape, dy(r, -1, 1))) if style == 'const' else (
      lambda: np.zeros(g.shape)) if style == 'zero' else (lambda: dyarr(r, g.shape, -1, 1, 1))
  c = mkvar(mk(), g.cell_center, g, per)
  v = tuple(mkvar(mk(), o, g, per) for o in g.cell_faces)
  rho, nu = r.choice([1., 2., .5]), r.choice([.25, .125])
  if w == 'vanleer':
    ts = [(P, P) if r.random() < .6 else (D, D) for _ in range(nd)]
    v = tuple(mkvar(u.data, u.offset, g, hom(ts)) for u in v)
    c = mkvar(c.data, c.offset, g, hom([(P, P) if t[0] == P else (N, N) for t in ts]))
    return w, (c,) + v, lambda x: adv.advect_van_leer(x[0], x[1:], dt)
  if w == 'vanleer2':
    return w, (c,) + v, lambda x: adv.advect_van_leer_using_limiters(x[0], x[1:], dt)
  if w == 'semilag':
    return w, (c,) + v, lambda x: adv.advect_step_semilagrangian(x[0], x[1:], dt)
  if w == 'smag':
    cs = r.choice([.2, .5, 1.])
    fn = functools.partial(sgm.smagorinsky_viscosity, dt=dt, cs=cs)
    return w, v, lambda x: sgm.evm_model(x, fn)
  if w == 'lw':
    o = g.cell_faces[0]
    return w, (c,) + v, lambda x: interp.lax_wendroff(x[0], o, x[1:], dt)
  if w == 'tvd':
    o = g.cell_faces[0]
    f = interp.apply_tvd_limiter(interp.lax_wendroff, limiter=interp.van_leer_limiter)
    return w, (c,) + v, lambda x: f(x[0], o, x[1:], dt)
  if w == 'stagconv':
    return w, v, lambda x: adv.convect_linear(x)
  if w == 'down':
    g2 = grids.Grid(tuple(2 * n for n in g.shape), step=g.step)
    g1 = grids.Grid(g.shape, step=tuple(2 * s for s in g.step))
    v = tuple(mkvar(generic(r, g2.shape), o, g2, per) for o in g2.cell_faces)
    return w, v, lambda x: resize.downsample_staggered_velocity(g2, g1, x)
  if w == 'force':
    f = forcings.kolmogorov_forcing(g, scale=1., k=1) if nd == 2 else forcings.linear_forcing(g, .5)
    return w, v, lambda x: tuple(a + .5 * b for a, b in zip(f(x), forcings.linear_forcing(g, .25)(x)))
  if w == 'implicit':
    return w, v, equations.implicit_diffusion_navier_stokes(rho, nu, dt, g)
  if w == 'colloc':
    v = tuple(mkvar(mk(), g.cell_center, g, per) for _ in range(nd))
    s = functools.partial(cpress.solve_cg, rtol=1e-12, atol=1e-12, maxiter=400)
    return w, v, ceq.semi_implicit_navier_stokes(rho, nu, dt, g, convect=cadv.convect_linear, pressure_solve=s)
  kw = {}
  if r.random() < .5:
    kw['convect'] = adv.convect_linear
  if r.random() < .4:
    kw['forcing'] = forcings.linear_forcing(g, .25)
  st = equations.semi_implicit_navier_stokes(rho, nu, dt, g, **kw)
  return w, v, st


def known(r):
  """An operation with its definition in the specification."""
  if r.random() < .5:
    f, p, x, F, k = linear_case(r)
    return f, p, x, F
  f, p, x, F, _ = quad_case(r)
  return f, p, x, F


def batch_case(r):
  K = r.randint(1, 3)
  roll = r.random()
  tol = 4
  if roll < .5:
    f, p, x, F = known(r)
  elif roll < .75:
    f, _, p, x, F, tol, _ = relation_case(r); p = dict(ax=1)
  else:
    f, x, F = secant_case(r); p = dict(ax=1)
    tol = 64
  lanes = [amap(lambda a: jnp.asarray(signed(r, a.shape) if f == 'advupwind' else dyarr(r, a.shape, -1, 1, 8)), x) for _ in range(K)]
  how = r.choice(['vmap', 'vmap', 'jit-vmap', 'vmap-out', 'map', 'jit'])
  e = dict(op='batch', k='batch %s %s' % (f, how), f=f, p=p, e='', tol=tol, xs=[[field(u) for u in l] for l in lanes], lanes=[], batched=[])
  try:
    ys = [F(l) for l in lanes]
    st = amap(lambda *a: jnp.stack(a), *lanes)
    if how == 'vmap':
      b = jax.vmap(F)(st)
    elif how == 'jit-vmap':
      b = jax.jit(jax.vmap(F))(st)
    elif how == 'vmap-out':
      st = amap(lambda *a: jnp.stack(a, -1), *lanes)
      b = jax.vmap(F, in_axes=-1)(st)
    elif how == 'map':
      b = jax.lax.map(F, st)
    else:
      J = jax.jit(F); b = amap(lambda *a: jnp.stack(a), *[J(l) for l in lanes])
    e.update(lanes=[arrs(y) for y in ys], batched=[[arr(q[j]) for q in jax.tree.leaves(b)] for j in range(K)])
  except Exception as ex:  # pylint: disable=broad-except
    e['e'] = type(ex).__name__; e['msg'] = str(ex)[:200].encode('ascii', 'replace').decode()
  return e


def unroll_case(r):
  """An explicit Euler history, its frames, their perturbation and the gradient of the whole history."""
  while True:
    f, p, x, F, g = quad_case(r)
    if f != 'advupwind' and (f in ('advlinear', 'colinear') or len(x) == g.ndim):
      break
  dt = r.choice([.125, .0625])
  p['c'] = fx(.25)
  outer, inner = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (4, 1)])
  head = r.random() < .5
  single = f in ('advlinear', 'colinear')
  ts = rnd_like(r, x, .5)

  def step(w):
    q = F(w)
    q = (q,) if single else tuple(q)
    return tuple(grids.GridVariable(a.array + dt * b, a.bc) for a, b in zip(w, q)) + tuple(w[len(q):])
  how = r.choice(['funcutils', 'builder', 'builder-checkpoint', 'funcutils-remat', 'loop'])
  if how in ('funcutils', 'funcutils-remat'):
    s = jax.checkpoint(step) if how == 'funcutils-remat' else step
    run_ = lambda w: funcutils.trajectory(funcutils.repeated(s, inner), outer, start_with_input=head)(w)[1]
  elif how.startswith('builder'):
    def model(w):
      return model_builder.trajectory_from_step(step, outer, inner, start_with_input=head, post_process_fn=lambda q: q,
                                                set_checkpoint=how == 'builder-checkpoint')(w)[1]
    net = hk.without_apply_rng(hk.transform(model))
    run_ = lambda w: net.apply({}, w)
  else:
    def run_(w):
      fr = []
      for _ in range(outer):
        if head:
          fr.append(w)
        for _ in range(inner):
          w = step(w)
        if not head:
          fr.append(w)
      return amap(lambda *a: jnp.stack(a), *fr)
  e = dict(op='unroll', k='unroll %s %s %dx%d%s' % (f, how, outer, inner, ' head' if head else ''), f=f, p=p, e='', xs=[field(u) for u in x],
           ts=arrs(ts), dt=fx(dt), outer=outer, inner=inner, head=head, frames=[], tframes=[], cs=[], dys=[], bs=[], tol=1024, atol=32)
  try:
    m, go, back = modes(r, run_)
    y, d = go(x, ts)
    c = rnd_like(r, y, .5)
    b = back(x, c)
    n = outer
    rows = lambda t: [[arr(q[j]) for q in jax.tree.leaves(t)] for j in range(n)]
    e.update(frames=rows(y), tframes=rows(d), cs=arrs(c), dys=arrs(d), bs=arrs(b), k=e['k'] + ' ' + m)
  except Exception as ex:  # pylint: disable=broad-except
    e['e'] = type(ex).__name__; e['msg'] = str(ex)[:200].encode('ascii', 'replace').decode()
  return e


def learned_case(r):
  """Derivatives with respect to the parameters of a learned model and its input together."""
  nd = r.choice([1, 2])
  g = rand_grid(r, nd, 4, 6)
  g = grids.Grid(g.shape, step=(g.step[0],) * nd)
  per = hom([(P, P)] * nd)
  v = tuple(mkvar(generic(r, g.shape), o, g, per) for o in g.cell_faces)
  specs = phys.NavierStokesPhysicsSpecs(1., .1, None)
  dt = .125
  tower = functools.partial(towers.forward_tower_factory, num_hidden_channels=2, num_hidden_layers=1, kernel_size=3, nonlinearity=jnp.tanh)
  w = r.choice(['interp', 'advect', 'trajectory'])
  individual = r.random() < .3
  fuse = r.random() < .3

  def fwd(x):
    def module(grid, dt_, specs_, **kw):
      if individual:
        return mint.IndividualLearnedInterpolation(grid, dt_, specs_, x, stencil_size=2, tower_factory=tower)
      return mint.FusedLearnedInterpolation(grid, dt_, specs_, x, tags=('c', 'u'), tower_factory=tower, stencil_size=2, fuse_constraints=fuse,
                                            fuse_patches=fuse)
    if w == 'interp':
      to = grids.control_volume_offsets(x[0])[0]
      return module(g, dt, specs)(x[0], to, x, dt, **({} if individual else dict(tag='c')))
    if individual:
      return madv.self_advection(g, dt, specs, c_interpolation_module=module, u_interpolation_module=module)(x)
    def cfn(z):
      nonlocal x
      x = z
      return madv.self_advection(g, dt, specs, advection_module=functools.partial(madv.modular_self_advection, interpolation_module=module))(z)
    if w == 'advect':
      return cfn(x)
    conv = hk.to_module(cfn)('convection')
    def step(z):
      q = conv(z)
      return tuple(grids.GridVariable(a_.array + dt * b_, a_.bc) for a_, b_ in zip(z, q))
    return model_builder.trajectory_from_step(step, 2, 1, start_with_input=False, post_process_fn=lambda q: q, set_checkpoint=ck)(x)[1]
  ck = r.random() < .5
  m = hk.without_apply_rng(hk.transform(fwd))
  params = m.init(jax.random.PRNGKey(r.randrange(1000)), v)
  params = jax.tree.map(lambda a: jnp.asarray(np.rint(np.asarray(a, np.float64) * 64) / 64), params)
  return 'learned %s%s' % (w, ' checkpoint' if ck and w == 'trajectory' else ''), (params, v), lambda z: m.apply(z[0], z[1])


def spectral_case(r):
  g = grids.Grid((r.choice([4, 6]), r.choice([4, 5, 6])), domain=((0, 2 * np.pi), (0, 2 * np.pi)))
  nu = r.choice([.01, .1])
  eqn = seq.NavierStokes2D(nu, g, drag=r.choice([0., .1]), smooth=r.random() < .5)
  dt = r.choice([.05, .1])
  st = r.choice([sts.crank_nicolson_rk4, sts.crank_nicolson_rk2, sts.imex_rk_sil3, sts.forward_euler if hasattr(sts, 'forward_euler') else sts.imex_rk_sil3])(eqn, dt)
  x = jnp.asarray(generic(r, g.shape))
  return 'spectral', x, lambda z: jnp.fft.irfft2(st(jnp.fft.rfft2(z)), s=g.shape)


def run(spec):
  r = rng_for(spec['seed'], 'c24', spec['i'])
  kind = KINDS[spec['i'] % len(KINDS)]
  ev = []
  if kind == 'linear':
    for _ in range(4):
      f, p, x, F, k = linear_case(r)
      ev.append(tangent(r, '%s %s' % (f, k), F, x, 'exact', f, p))
  elif kind == 'quad':
    for _ in range(3):
      f, p, x, F, g = quad_case(r)
      ev.append(tangent(r, f, F, x, 'exact', f, p, tol=256, tscale=.5))
  elif kind == 'relation':
    for _ in range(2):
      w, rule, p, x, F, tol, atol = relation_case(r)
      ev.append(tangent(r, w, F, x, rule, w, p, tol=tol, atol=atol, ptol=16 if w in ('proj', 'impl', 'implmat') else 256))
  elif kind == 'secant':
    for _ in range(3):
      w, x, F = secant_case(r)
      ev.append(tangent(r, w, F, x, 'secant', w, tol=256, atol=64, ptol=64))
  elif kind == 'kink':
    for _ in range(3):
      style = r.choice(['zero', 'const', 'ties'])
      w, x, F = secant_case(r, style)
      ev.append(tangent(r, '%s at %s' % (w, style), F, x, 'none', w, atol=64, ptol=64))
  elif kind == 'batch':
    for _ in range(3):
      ev.append(batch_case(r))
  elif kind == 'unroll':
    ev.append(unroll_case(r)); ev.append(unroll_case(r))
  elif kind == 'learned':
    w, x, F = learned_case(r)
    ev.append(tangent(r, w, F, x, 'secant', w, tol=512, atol=128, ptol=64))
  elif kind == 'spectral':
    for _ in range(2):
      w, x, F = spectral_case(r)
      ev.append(tangent(r, w, F, x, 'secant', w, tol=512, atol=64, ptol=64))
  return ev
