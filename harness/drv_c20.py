"""C20: assembled solvers, eddy viscosity, time steps, learned steps."""
import functools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx, field, gridj
import haiku as hk
import jax
import jax.numpy as jnp
from jax_cfd.base import advection as adv, boundaries as bd, diffusion, equations as eq, grids, pressure, subgrid_models as sg, time_stepping as ts
from jax_cfd.collocated import advection as cadv, equations as ceq, pressure as cpressure
from jax_cfd.ml import diffusions as mdiff, equations as meq, physics_specifications as mps, pressures as mpress, viscosities as mvisc
from drv_c03 import cfield

D, N, P = bd.BCType.DIRICHLET, bd.BCType.NEUMANN, bd.BCType.PERIODIC
KINDS = ['exp', 'imp', 'exp', 'smag', 'ml', 'exp', 'col', 'eddy', 'imp', 'dt', 'ml', 'learned', 'evmimp', 'walls', 'smag', 'refuse']
cg = functools.partial(pressure.solve_cg, rtol=1e-13, atol=1e-11, maxiter=500)
ccg = functools.partial(cpressure.solve_cg, rtol=1e-13, atol=1e-11, maxiter=500)
dcg = functools.partial(diffusion.solve_cg, rtol=1e-13, atol=1e-12, maxiter=500)
TABS = dict(forward_euler=[[1]], midpoint_rk2=[[.5], [0, 1]], heun_rk2=[[1], [.5, .5]],
            classic_rk4=[[.5], [0, .5], [0, 0, 1], [1 / 6, 1 / 3, 1 / 3, 1 / 6]])
ADV = dict(linear=lambda dt: lambda v: tuple(adv.advect_linear(u, v, dt) for u in v),
           upwind=lambda dt: lambda v: tuple(adv.advect_upwind(u, v, dt) for u in v),
           vanleer2=lambda dt: lambda v: tuple(adv.advect_van_leer_using_limiters(u, v, dt) for u in v),
           vanleer=lambda dt: lambda v: tuple(adv.advect_van_leer(u, v, dt) for u in v),
           convect=lambda dt: adv.convect_linear, coconvect=lambda dt: cadv.convect_linear,
           none=lambda dt: lambda v: tuple(0 * u.array for u in v))


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(300 if tier == 'quick' else 5000)]


def run(spec):
  r = rng_for(spec['seed'], 'c20', spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r)


def rgrid(r, nd=None, nmin=2, nmax=5, iso=False):
  nd = nd or r.choice([1, 2, 2, 2, 2, 3])
  shape = tuple(r.randint(nmin, 3 if nd == 3 else nmax) for _ in range(nd))
  if nd < 3 and nmax >= 4 and r.random() < .05:   # now and then a long, thin domain
    ax = r.randrange(nd)
    shape = tuple(r.randint(8, 14) if d == ax else max(nmin, min(n, 3)) for d, n in enumerate(shape))
  hs = [r.choice([.25, .5, 1.]) for _ in range(nd)]
  if iso:
    hs = [hs[0]] * nd
  lo = r.choice([0., 0., -1.])
  return grids.Grid(shape, domain=tuple((lo, lo + n * h) for n, h in zip(shape, hs)))


def velocity(r, g, walls=None, kind=None, offsets=None):
  """Face velocity, kinds: random, solenoidal, uniform, rest."""
  nd = g.ndim
  walls = walls or [False] * nd
  kind = kind or r.choice(['random', 'random', 'solenoidal', 'solenoidal', 'uniform', 'rest'])
  offsets = offsets or g.cell_faces
  types = [(D, D) if w else (P, P) for w in walls]
  if kind in ('rest',) or (kind == 'uniform' and any(walls)):
    us, kind = [np.zeros(g.shape) for _ in range(nd)], 'rest'
  elif kind == 'uniform':
    us = [np.full(g.shape, dy(r, -1, 1)) for _ in range(nd)]
  elif kind == 'solenoidal' and nd > 1:
    psi = dyarr(r, g.shape, -.5, .5, 8) * min(g.step)
    for ax in (0, 1):
      if walls[ax]:
        sl = [slice(None)] * nd; sl[ax] = -1; psi[tuple(sl)] = 0
    us = [np.zeros(g.shape) for _ in range(nd)]
    us[0] = (psi - np.roll(psi, 1, 1)) / g.step[1]
    us[1] = -(psi - np.roll(psi, 1, 0)) / g.step[0]
  else:
    us = [dyarr(r, g.shape, -1, 1) for _ in range(nd)]
    for ax in range(nd):
      if walls[ax]:
        sl = [slice(None)] * nd; sl[ax] = -1; us[ax][tuple(sl)] = 0
  bc = bd.HomogeneousBoundaryConditions(types)
  v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(u), o, g), bc) for u, o in zip(us, offsets))
  return v, kind


def physics(r, kind, walls=False):
  mu = r.choice([None, None, 0., 1 / 64, 1 / 16, 1 / 8, 1 / 8])
  return mu, r.choice([1., 1., 2., .5, 4.])


def force(r, g, offsets=None, on=None):
  """(arrays, linear part, function)"""
  offsets = offsets or g.cell_faces
  if on is None:
    on = r.random() < .5
  F = [dyarr(r, g.shape, -1, 1) if on else np.zeros(g.shape) for _ in offsets]
  lin = r.choice([0., 0., -.5, .25]) if on else 0.
  fn = lambda v: tuple(grids.GridArray(jnp.asarray(f), u.offset, g) + lin * u.array for f, u in zip(F, v))
  return F, lin, fn, on


def mids(v, tab, rate, project, dt):
  """States between the stages; the specification checks them."""
  us, ks = [v], []
  rows = TABS[tab]
  for row in rows[:-1]:
    ks.append(rate(us[-1]))
    star = tuple(grids.GridVariable(u.array + dt * sum(a * k[c].array for a, k in zip(row, ks)), u.bc) for c, u in enumerate(v))
    us.append(project(star))
  return us[1:]


def step_event(k, alg, v, outs, out, F, lin, mu, rho, dt, scheme, tab='forward_euler', mid=(), cs2=0., tol=256, laws=(), mtol=None):
  p = dict(alg=alg, scheme=scheme, tab=tab, dt=fx(dt), mu=fx(mu or 0.), viscous=mu is not None, rho=fx(rho), cs2=fx(cs2),
           F=[arr(f) for f in F], lin=fx(lin), mid=[[field(u) for u in m] for m in mid], tol=tol)
  return dict(op='step', k=k, p=p, w=[field(u) for u in v], outs=[field(u) for u in outs] if outs is not None else [], out=out,
              laws=list(laws), mtol=mtol or tol)


def laws(kind, forced, walls):
  L = []
  if not forced and not any(walls):
    L.append('conserve')
  if not forced and kind in ('uniform', 'rest'):
    L.append('still')
  return L


def apply(step, v, r):
  f = jax.jit(step) if r.random() < .06 else step
  return vlib.call(lambda: f(v), lambda z: dict(e=''))


def explicit(r, g, v, kind, walls, scheme, tab, solve=None, default_convect=False):
  mu, rho = physics(r, kind)
  F, lin, fn, on = force(r, g)
  dt = r.choice([1 / 16, 1 / 32, 1 / 8])
  kw = dict(density=rho, viscosity=mu, dt=dt, grid=g)
  if not default_convect:
    kw['convect'] = ADV[scheme](dt)
  if on:
    kw['forcing'] = fn
  if solve is not None:
    kw['pressure_solve'] = solve
  if tab != 'forward_euler' or r.random() < .3:
    kw['time_stepper'] = getattr(ts, tab)
  ev = []
  try:
    step, err = eq.semi_implicit_navier_stokes(**kw), None
  except Exception as e:  # pylint: disable=broad-except
    step, err = None, vlib.err(e)
  for n in range(r.choice([1, 1, 2])):
    if step is None:
      outs, out = None, err
    else:
      outs, out = apply(step, v, r)
    mid = []
    if outs is not None and tab != 'forward_euler':
      nu = None if mu is None else mu / rho
      base = ADV[scheme](dt)

      def rate(u):
        a = base(u)
        if nu is not None:
          a = tuple(x + diffusion.diffuse(c, nu) for x, c in zip(a, u))
        if on:
          a = tuple(x + f / rho for x, f in zip(a, fn(u)))
        return tuple(grids.GridVariable(x, c.bc) for x, c in zip(a, u))
      mid = mids(v, tab, rate, lambda s: pressure.projection(s, solve or pressure.solve_fast_diag), dt)
    ev.append(step_event('%s %s %s %s walls %s rho %g' % (tab, scheme, kind, g.shape, walls, rho), 'explicit', v, outs, out, F, lin, mu, rho, dt,
                         scheme, tab, mid, tol=512, laws=laws(kind, on, walls)))
    if outs is None:
      break
    v, kind = outs, ('random' if on else kind)
  return ev


def do_exp(r):
  g = rgrid(r, nmin=3 if r.random() < .7 else 2)
  v, kind = velocity(r, g)
  scheme = r.choice(['linear', 'upwind', 'vanleer2', 'vanleer2', 'convect'])
  tab = r.choice(['forward_euler', 'forward_euler', 'midpoint_rk2', 'heun_rk2', 'classic_rk4'])
  return explicit(r, g, v, kind, [False] * g.ndim, scheme, tab, r.choice([None, None, cg]),
                  default_convect=scheme == 'vanleer2' and r.random() < .6)


def do_walls(r):
  g = rgrid(r, nd=2, nmin=3)
  walls = r.choice([[True, True], [False, True], [True, False]])
  v, kind = velocity(r, g, walls)
  return explicit(r, g, v, kind, walls, r.choice(['vanleer', 'vanleer', 'none']), r.choice(['forward_euler', 'heun_rk2']))


def do_imp(r):
  walls = [False] * 3
  if r.random() < .3:
    g = rgrid(r, nd=2, nmin=3)
    walls = r.choice([[True, True], [False, True], [True, False]])
    scheme = r.choice(['vanleer', 'none'])
  else:
    g = rgrid(r, nmin=3)
    walls = [False] * g.ndim
    scheme = r.choice(['linear', 'upwind', 'vanleer2', 'vanleer2', 'convect'])
  v, kind = velocity(r, g, walls)
  mu, rho = r.choice([0., 1 / 64, 1 / 16, 1 / 8, .5]), r.choice([1., 1., 2., .5, 4.])
  F, lin, fn, on = force(r, g)
  dt = r.choice([1 / 16, 1 / 32, 1 / 8])
  kw = dict(density=rho, viscosity=mu, dt=dt, grid=g)
  if scheme != 'vanleer2' or r.random() < .4:
    kw['convect'] = ADV[scheme](dt)
  if on:
    kw['forcing'] = fn
  solver = 'default'
  if not any(walls):
    solver = r.choice(['default', 'cg', 'matmul', 'fft'])
    if solver == 'cg':
      kw.update(diffusion_solve=dcg, pressure_solve=cg)
    elif solver != 'default':
      kw.update(diffusion_solve=functools.partial(diffusion.solve_fast_diag, implementation=solver))
  ev = []
  for n in range(r.choice([1, 1, 2])):
    outs, out = vlib.call(lambda: eq.implicit_diffusion_navier_stokes(**kw)(v), lambda z: dict(e=''))
    ev.append(step_event('implicit %s %s %s %s walls %s rho %g' % (solver, scheme, kind, g.shape, walls, rho), 'implicit', v, outs, out, F, lin, mu,
                         rho, dt, scheme, tol=640, laws=laws(kind, on, walls)))
    if outs is None:
      break
    v, kind = outs, ('random' if on else kind)
  return ev


def do_col(r):
  return [one_col(r) for _ in range(3)]


def one_col(r):
  nd = r.choice([1, 2, 2, 3])
  g = rgrid(r, nd=nd, nmin=3)
  offs = (g.cell_center,) * nd
  v, kind = velocity(r, g, offsets=offs, kind=r.choice(['random', 'random', 'uniform', 'rest']))
  mu, rho = physics(r, kind)
  F, lin, fn, on = force(r, g, offs)
  dt = r.choice([1 / 16, 1 / 32])
  scheme = r.choice(['coconvect', 'vanleer2'])
  kw = dict(density=rho, viscosity=mu, dt=dt, grid=g, pressure_solve=ccg)
  if scheme == 'coconvect' or r.random() < .5:
    kw['convect'] = ADV[scheme](dt)
  if on:
    kw['forcing'] = fn
  outs, out = apply(ceq.semi_implicit_navier_stokes(**kw), v, r)
  return step_event('collocated %s %s %s rho %g' % (scheme, kind, g.shape, rho), 'collocated', v, outs, out, F, lin, mu, rho, dt, scheme, tol=1024,
                    laws=laws(kind, on, [False]))


def cs_of(r):
  return r.choice([.2, .2, .125, .5, 0.])


def do_smag(r):
  iso = r.random() < .6
  g = rgrid(r, nmin=3, iso=iso)
  v, kind = velocity(r, g)
  cs = cs_of(r)
  cut = float(np.prod(g.step)) ** (1 / g.ndim)
  cs2 = (cs * cut) ** 2
  ev = []
  if r.random() < .5:
    S = strain(g, v)
    kw = {} if cs == .2 and r.random() < .5 else dict(cs=cs)
    nu, out = vlib.call(lambda: sg.smagorinsky_viscosity(S, v, **kw), lambda z: dict(e=''))
    ev.append(dict(op='visc', k='smagorinsky viscosity %s' % (g.shape,), w=[field(u) for u in v], cs2=fx(cs2), out=out, tol=128 + int(cs2 * 4096),
                   nu=tensor(nu, g.ndim) if nu is not None else []))
    if nu is not None and len(ev[-1]['nu']) != g.ndim:
      ev[-1]['nu'] = []
  mu, rho = physics(r, kind)
  F, lin, fn, on = force(r, g)
  dt = r.choice([1 / 16, 1 / 32])
  scheme = r.choice(['linear', 'vanleer2', 'upwind'])
  kw = dict(density=rho, viscosity=mu, grid=g)
  if scheme != 'vanleer2' or r.random() < .5:
    kw['convect'] = ADV[scheme](dt)
  outs, out = apply(lambda v: sg.explicit_smagorinsky_navier_stokes(dt, cs, fn if on else None, **kw)(v), v, r)
  ev.append(step_event('explicit smagorinsky %s %s %s rho %g cs %g' % (scheme, kind, g.shape, rho, cs), 'explicit', v, outs, out, F, lin, mu, rho, dt,
                       scheme, cs2=cs2, tol=768, laws=laws(kind, on, [False])))
  if cs == 0 or kind in ('uniform', 'rest'):   # without strain the implicit closure is plain diffusion
    mu2 = mu or 0.
    outs, out = apply(lambda v: sg.implicit_smagorinsky_navier_stokes(
        dt, cs, density=rho, viscosity=mu2, grid=g, convect=ADV[scheme](dt))(v), v, r)
    ev.append(step_event('implicit smagorinsky %s %s %s rho %g cs %g' % (scheme, kind, g.shape, rho, cs), 'implicit', v, outs, out,
                         [np.zeros(g.shape)] * g.ndim, 0., mu2, rho, dt, scheme, tol=1024, laws=laws(kind, False, [False])))
  return ev


def strain(g, v):
  from jax_cfd.base import finite_differences as fd
  return grids.GridArrayTensor([[.5 * (fd.forward_difference(v[i], j) + fd.forward_difference(v[j], i)) for j in range(g.ndim)] for i in range(g.ndim)])


def tensor(t, nd):
  return [[arr(getattr(t[i, j], 'data', t[i, j])) for j in range(nd)] for i in range(nd)]


def rand_visc(r, g, spd=False):
  nd = g.ndim
  sym = spd or r.random() < .5
  N = [[dyarr(r, g.shape, 0, 1, 8) for _ in range(nd)] for _ in range(nd)]
  if sym:
    for i in range(nd):
      for j in range(i):
        N[i][j] = N[j][i]
  return N


def visc_fn(N):
  def f(s_ij, v):
    del v
    flat = [jnp.asarray(x) for row in N for x in row]
    return jax.tree.unflatten(jax.tree_util.tree_structure(s_ij), flat)
  return f


def do_eddy(r):
  g = rgrid(r, nmin=3)
  v, kind = velocity(r, g)
  if r.random() < .3 and g.ndim > 1:
    # a learned viscosity, recorded on its way into the model
    rec = []
    net = lambda outc, ndim: (lambda x: jnp.tanh(jnp.sum(x, -1, keepdims=True)) * jnp.arange(1., outc + 1) / 4)
    model = r.choice([mvisc.learned_scalar_viscosity, mvisc.learned_scalar_viscosity_from_gradients, mvisc.learned_tensor_viscosity])
    specs = mps.NavierStokesPhysicsSpecs(forcing_module=None, density=1., viscosity=.5)

    def vm(*a, **kw):
      f = model(*a, tower_factory=net, **kw)
      def h(s_ij, v):
        nu = f(s_ij, v)
        rec.append(nu)
        return nu
      return h
    fn = hk.without_apply_rng(hk.transform(lambda v: mvisc.eddy_viscosity_model(g, 1 / 16, specs, viscosity_model=vm)(v)))
    outs, out = vlib.call(lambda: fn.apply({}, v), lambda z: dict(e=''))
    if outs is not None:
      try:
        N = tensor(rec[-1], g.ndim)
      except Exception:  # pylint: disable=broad-except
        return []
    else:
      N = []
    k = 'learned viscosity %s' % model.__name__
  else:
    Nn = rand_visc(r, g)
    N = [[arr(x) for x in row] for row in Nn]
    outs, out = vlib.call(lambda: sg.evm_model(v, visc_fn(Nn)), lambda z: dict(e=''))
    k = 'given viscosity'
  return [dict(op='eddy', k='%s %s' % (k, g.shape), w=[field(u) for u in v], nu=N, out=out, tol=1024,
               outs=[cfield(a) for a in outs] if outs is not None else [])]


def do_evmimp(r):
  g = rgrid(r, nmin=3)
  v, kind = velocity(r, g)
  N = rand_visc(r, g, spd=True)
  nu, dt = r.choice([0., 1 / 16, 1 / 4]), r.choice([1 / 16, 1 / 32])
  kw = dict(cg_kwargs=dict(tol=1e-13, atol=1e-12, maxiter=500))
  if r.random() < .5:
    specs = mps.NavierStokesPhysicsSpecs(forcing_module=None, density=1., viscosity=nu)
    vm = lambda grid, dt, s, viscosity_scale: visc_fn(N)
    mod = functools.partial(mvisc.eddy_viscosity_model, viscosity_model=vm)
    fn = hk.without_apply_rng(hk.transform(lambda v: mdiff.implicit_evm_solve_with_diffusion(
        g, dt, specs, viscosity_module=mod, atol=1e-12, maxiter=500)(v, nu, dt)))
    outs, out = vlib.call(lambda: fn.apply({}, v), lambda z: dict(e=''))
  else:
    outs, out = vlib.call(lambda: sg.implicit_evm_solve_with_diffusion(v, nu, dt, functools.partial(sg.evm_model, viscosity_fn=visc_fn(N)), **kw),
                          lambda z: dict(e=''))
  return [dict(op='evmimplicit', k='implicit eddy viscosity %s' % (g.shape,), w=[field(u) for u in v], nu=[[arr(x) for x in row] for row in N],
               visc=fx(nu), dt=fx(dt), out=out, tol=512, outs=[field(u) for u in outs] if outs is not None else [])]


def do_dt(r):
  ev = []
  for _ in range(3):
    g = rgrid(r)
    v, kind = velocity(r, g, kind=r.choice(['random', 'solenoidal', 'uniform']))
    if max(float(jnp.abs(u.data).max()) for u in v) == 0:
      continue
    cn, nu = r.choice([.25, .5, 1.]), r.choice([1 / 64, 1 / 8, .5, 2.])
    imp, dyn = r.random() < .5, r.random() < .6
    um = r.choice([.5, 1., 3.])
    kw = dict(implicit_diffusion=imp) if imp or r.random() < .5 else {}
    fn = (lambda: eq.dynamic_time_step(v, cn, nu, g, **kw)) if dyn else (lambda: eq.stable_time_step(um, cn, nu, g, **kw))
    val, out = vlib.call(fn, lambda z: dict(e='', v=fx(z)))
    ev.append(dict(op='dt', k='time step %s' % (g.shape,), w=[field(u) for u in v], g=gridj(g), cn=fx(cn), visc=fx(nu), umax=fx(um), implicit=imp,
                   dynamic=dyn, out=out, dtv=out.get('v', 0) if out['e'] == '' else 0))
  return ev


def transformed(build, v):
  fn = hk.without_apply_rng(hk.transform(lambda v: build()(v)))
  return vlib.call(lambda: fn.apply(fn.init(jax.random.PRNGKey(0), v), v), lambda z: dict(e=''))


def do_ml(r):
  g = rgrid(r, nmin=3)
  v, kind = velocity(r, g)
  implicit = r.random() < .5
  mu, rho = r.choice([0., 1 / 64, 1 / 16, 1 / 8]), r.choice([1., 1., 2., .5])
  F, lin, fn, on = force(r, g)
  if not on:
    fn = lambda v: tuple(0 * u.array for u in v)
  dt = r.choice([1 / 16, 1 / 32])
  specs = mps.NavierStokesPhysicsSpecs(forcing_module=lambda grid: fn, density=rho, viscosity=mu)
  kw = {}
  scheme = 'upwind'
  tab = 'forward_euler'
  if implicit:
    dm = r.choice([None, None, 'cg', 'fft'])
    if dm == 'cg':
      kw['equation_solver'] = functools.partial(meq.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
          mdiff.solve_cg, atol=1e-12, rtol=1e-12, maxiter=500))
    elif dm:
      kw['equation_solver'] = functools.partial(meq.implicit_diffusion_navier_stokes, diffusion_module=functools.partial(
          mdiff.solve_fast_diag, implementation=dm))
  else:
    kw['equation_solver'] = meq.semi_implicit_navier_stokes
  if r.random() < .4:
    scheme = r.choice(['linear', 'convect'])
    kw['convection_module'] = lambda grid, dt, specs, v: ADV[scheme](dt)
  cs2 = 0.
  if not implicit and r.random() < .4:
    cs = cs_of(r)
    cs2 = (cs * float(np.prod(g.step)) ** (1 / g.ndim)) ** 2
    kw['acceleration_modules'] = (functools.partial(mvisc.eddy_viscosity_model, viscosity_model=functools.partial(mvisc.smagorinsky_viscosity, cs=cs)),)
  tol = 768
  if r.random() < .2:
    kw['pressure_module'] = functools.partial(mpress.conjugate_gradient, atol=1e-8, maxiter=200)
    tol = 4096
  outs, out = transformed(lambda: meq.modular_navier_stokes_model(g, dt, specs, **kw), v)
  return [step_event('ml %s %s %s %s rho %g accel %g' % ('implicit' if implicit else 'explicit', scheme, kind, g.shape, rho, cs2),
                     'implicit' if implicit else 'explicit', v, outs, out, F, lin, mu, rho, dt, scheme, tab, cs2=cs2, tol=tol,
                     laws=laws(kind, on, [False]))]


def do_learned(r):
  ev = []
  g = rgrid(r, nd=r.choice([1, 2]), nmin=2)
  dt = r.choice([.25, .5, .125])
  a, b, c, d, c2 = (dy(r, -1, 1) for _ in range(5))
  xs = tuple(jnp.asarray(dyarr(r, g.shape, -1, 1)) for _ in range(r.randint(1, 3)))
  base = lambda grid, dt_, specs: (lambda s: jax.tree.map(lambda x: a * x + b, s))
  corr = lambda grid, dt_, specs: (lambda s: jax.tree.map(lambda x: c * x + d, s))

  def corr3(grid, dt_, specs):
    def f(both):
      n = len(both) // 2
      return tuple(c * x + d + c2 * y for x, y in zip(both[:n], both[n:]))
    return f
  kind = r.choice(['v1', 'v2', 'v3', 'same'])
  build = dict(v1=lambda: meq.learned_corrector(g, dt, None, base, corr), v2=lambda: meq.learned_corrector_v2(g, dt, None, base, corr),
               v3=lambda: meq.learned_corrector_v3(g, dt, None, base, corr3), same=lambda: meq.identity_model(g, dt, None))[kind]
  outs, out = transformed(build, xs)
  ev.append(dict(op='correct', k='correction %s' % kind, kind=kind, xs=[arr(x) for x in xs], outs=[arr(x) for x in outs] if outs is not None else [],
                 out=out, a=fx(a), b=fx(b), c=fx(c), d=fx(d), c2=fx(c2), dt=fx(dt)))
  F, lin, fn, on = force(r, g)
  if not on:
    fn = lambda v: tuple(0 * u.array for u in v)
  specs = mps.BasePhysicsSpecs(forcing_module=lambda grid: fn)
  x = dyarr(r, g.shape + (g.ndim,), -1, 1)
  ab = [(dy(r, -1, 1), dy(r, -1, 1)) for _ in range(r.randint(0, 3))]
  mods = tuple((lambda grid, dt_, specs_, p=p: (lambda y: p[0] * y + p[1])) for p in ab)
  out_x, out = transformed(lambda: meq.time_derivative_network_model(g, dt, specs, mods), jnp.asarray(x))
  if out_x is not None:
    out = dict(arr(out_x), e='')
  ev.append(dict(op='net', k='%d networks on %s' % (len(ab), g.shape), x=arr(x), out=out, ab=[[fx(p), fx(q)] for p, q in ab], lin=fx(lin),
                 F=[arr(f) for f in F], dt=fx(dt)))
  return ev


def do_refuse(r):
  g = rgrid(r, nd=2, nmin=3)
  walls = r.choice([[True, True], [False, True]])
  v, _ = velocity(r, g, walls, kind='random')
  per, _ = velocity(r, g, kind='random')
  ev = []

  def add(k, fn, want='ValueError'):
    _, out = vlib.call(fn, lambda z: dict(e=''))
    ev.append(dict(op='refuse', k=k, out=out, want=want))
  N = visc_fn(rand_visc(r, g))
  add('eddy viscosity next to walls', lambda: sg.evm_model(v, N))
  add('smagorinsky next to walls', lambda: sg.smagorinsky_viscosity(strain(g, per), v))
  add('implicit eddy viscosity next to walls', lambda: sg.implicit_evm_solve_with_diffusion(v, .1, .1, functools.partial(sg.evm_model, viscosity_fn=N)))
  specs = mps.NavierStokesPhysicsSpecs(forcing_module=lambda grid: (lambda v: tuple(0 * u.array for u in v)), density=1., viscosity=.1)
  bare = tuple(u.array for u in per)
  fn = hk.without_apply_rng(hk.transform(lambda v: meq.modular_navier_stokes_model(g, .1, specs)(v)))
  add('velocity without boundary conditions', lambda: fn.apply({}, bare))
  return ev
