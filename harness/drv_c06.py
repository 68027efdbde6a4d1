"""C06: advection schemes."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, offj, fx, gridj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, advection as adv, finite_differences as fd
from jax_cfd.collocated import advection as cadv
from drv_c01 import rand_grid, rand_bc, P, D, N
from drv_c05 import loc_for, key_of
from drv_c03 import cfield


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(480 if tier == 'quick' else 6000)]


def mkvar(a, off, g, bc):
  return grids.GridVariable(grids.GridArray(jnp.asarray(a), off, g), bc)


def hom(types):
  return boundaries.HomogeneousBoundaryConditions(types)


def face_vel(r, g, walls, kind, scale=1.0):
  """A face velocity; 'divfree' ones come from a stream function or are uniform per line."""
  nd = g.ndim
  types = [(D, D) if w else (P, P) for w in walls]
  bc = hom(types)
  if kind == 'uniform':
    us = [np.full(g.shape, 0. if walls[a] else dy(r, -1, 1) * scale) for a in range(nd)]
  elif kind == 'divfree' and nd >= 2:
    a, b = r.sample(range(nd), 2)
    psi = dyarr(r, g.shape, -.5, .5, 8) * scale * min(g.step)
    for ax in (a, b):
      if walls[ax]:
        sl = [slice(None)] * nd; sl[ax] = -1; psi[tuple(sl)] = 0
    us = [np.zeros(g.shape) for _ in range(nd)]
    us[a] = (psi - np.roll(psi, 1, b)) / g.step[b]
    us[b] = -(psi - np.roll(psi, 1, a)) / g.step[a]
  else:
    us = [dyarr(r, g.shape, -1, 1) * scale for _ in range(nd)]
    if r.random() < .2:
      us = [np.abs(u) * r.choice([1, -1]) for u in us]
  for ax in range(nd):
    if walls[ax]:
      sl = [slice(None)] * nd; sl[ax] = -1
      us[ax][tuple(sl)] = 0
  return tuple(mkvar(u, o, g, bc) for u, o in zip(us, g.cell_faces))


def run(spec):
  r = rng_for(spec['seed'], 'c06', spec['i'])
  kinds = ['ff', 'ff', 'vl', 'vl', 'semi', 'conv', 'conv', 'co']
  kind = kinds[spec['i'] % len(kinds)]
  nd = r.choice([1, 2, 2, 2, 3])
  g = rand_grid(r, nd, 3 if kind == 'vl' else 2, 4 if nd == 3 else 5)
  jit = r.random() < .06
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  per = hom([(P, P)] * nd)
  dt = r.choice([.25, .125, .0625, .5])
  ev = []
  vk = r.choice(['rand', 'rand', 'divfree', 'uniform'])

  def laws_for(c, w, centred, walled=False):
    L = []
    off_ok = all(o == .5 for o in c.offset)
    if off_ok or not walled:
      L.append('conserve')
    const = np.ptp(np.asarray(c.data)) == 0
    divfree = off_ok and np.abs(np.asarray(fd.divergence(w).data)).max() < 1e-12
    if const and divfree:
      L.append('steady')
    courant = sum(np.abs(np.asarray(u.data)).max() * dt / h for u, h in zip(w, c.grid.step))
    if divfree and not centred and courant <= 1 and (nd == 1 or centred is None):
      L.append('range')
    return L

  if kind == 'ff':
    bc = per if r.random() < .93 else rand_bc(r, nd)
    off = r.choice([g.cell_center, g.cell_center, None]) or loc_for(r, bc, nd)
    w = face_vel(r, g, [False] * nd, vk)
    a = np.full(g.shape, dy(r)) if r.random() < .2 else dyarr(r, g.shape)
    c = mkvar(a, off, g, bc)
    for name, fn, cen in (('linear', adv.advect_linear, True), ('upwind', adv.advect_upwind, None),
                          ('vanleer2', adv.advect_van_leer_using_limiters, False)):
      if name == 'vanleer2' and bc is per and any(o not in (0., .5, 1.) for o in off):
        continue
      _, out = vlib.call(lambda: J(lambda c_, w_: fn(c_, w_, dt))(c, w), cfield)
      L = laws_for(c, w, cen) if bc is per else []
      ev.append(dict(op=name, k='%s %s %s' % (name, key_of(bc, off), vk), c=field(c), w=[field(u) for u in w],
                     dt=fx(dt), out=out, laws=L))
    cn, um = r.choice([.25, .5, 1.]), r.choice([.5, 1., 2., 4.])
    e = dict(op='cfl', k='stable_time_step', g=gridj(g), cn=fx(cn), umax=fx(um), e='', out=0)
    try:
      e['out'] = fx(adv.stable_time_step(um, cn, g))
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
    return ev
  if kind == 'vl':
    walls = [r.random() < .45 for _ in range(nd)]
    w = face_vel(r, g, walls, vk)
    types, off = [], []
    for ax in range(nd):
      t = r.choice([(D, D), (N, N), (D, N), (N, D)]) if walls[ax] else (P, P)
      o = .5 if N in t else r.choice([.5, .5, 0., 1.])
      types.append(t); off.append(o)
    c_bc = rand_bc(r, nd, types)
    off = tuple(off)
    a = np.full(g.shape, dy(r)) if r.random() < .2 else dyarr(r, g.shape)
    c = mkvar(a, off, g, c_bc)
    c = c.impose_bc() if r.random() < .5 else c
    homog = True
    if r.random() < .04 and any(walls):
      moving = boundaries.ConstantBoundaryConditions(w[0].bc.types, [(0., 1.) if x else (None, None) for x in walls])
      w = tuple(grids.GridVariable(u.array, moving) for u in w); homog = False
    kw = {} if r.random() < .5 else dict(mode=r.choice(['mirror', 'extend']))
    _, out = vlib.call(lambda: J(lambda c_, w_: adv.advect_van_leer(c_, w_, dt, **kw))(c, w), cfield)
    L = laws_for(c, w, False, any(walls)) if homog else []
    ev.append(dict(op='vanleer', k='vanleer %s %s' % (key_of(c_bc, off), vk), c=field(c), w=[field(u) for u in w],
                   dt=fx(dt), out=out, laws=L, mode=kw.get('mode', 'mirror'), homog=homog))
    return ev
  if kind == 'semi':
    g = grids.Grid(g.shape, step=g.step) if r.random() < .9 else g
    bc = per if r.random() < .93 else rand_bc(r, nd)
    off = loc_for(r, bc, nd)
    w = face_vel(r, g, [False] * nd, vk, r.choice([1., 4.]))
    c = mkvar(dyarr(r, g.shape), off, g, bc)
    _, out = vlib.call(lambda: J(lambda c_, w_: adv.advect_step_semilagrangian(c_, w_, dt))(c, w))
    ev.append(dict(op='semilag', k='semilag %s' % key_of(bc, off), c=field(c), w=[field(u) for u in w], dt=fx(dt), out=out))
    return ev
  if kind == 'conv':
    walls = [r.random() < .4 for _ in range(nd)]
    w = face_vel(r, g, walls, vk)
    homog = True
    if r.random() < .5 and any(walls):      # free slip: no normal flow, no shear
      w = tuple(grids.GridVariable(u.array, hom([(P, P) if not x else (D, D) if ax == i else (N, N) for ax, x in enumerate(walls)]))
                for i, u in enumerate(w))
    elif r.random() < .16 and any(walls):
      moving = boundaries.ConstantBoundaryConditions(w[0].bc.types, [(0., 1.) if x else (None, None) for x in walls])
      w = tuple(grids.GridVariable(u.array, moving) for u in w); homog = False
    outs, out = vlib.call(lambda: J(adv.convect_linear)(w), lambda x: dict(e=''))
    ev.append(dict(op='convect', k='convect %s %s' % (''.join('W' if x else 'P' for x in walls), vk), w=[field(u) for u in w],
                   out=out, outs=[cfield(x) for x in outs] if outs is not None else [], homog=homog,
                   laws=[] if any(walls) else ['conserve']))
    return ev
  for _ in range(7):
    collocated(r, rand_grid(r, nd, 2, 3 if nd == 3 else 5) if ev else g, nd, J, dt, ev)
  return ev


def collocated(r, g, nd, J, dt, ev):
  walls = [r.random() < .4 for _ in range(nd)]
  types = [(D, D) if x else (P, P) for x in walls]
  bc = hom(types)
  homog = True
  if r.random() < .1 and any(walls):
    bc = boundaries.ConstantBoundaryConditions(types, [(0., 1.) if x else (None, None) for x in walls]); homog = False
  w = tuple(mkvar(dyarr(r, g.shape, -1, 1), g.cell_center, g, bc) for _ in range(nd))
  if homog and any(walls) and r.random() < .7:      # open or slipping walls
    each = r.random() < .4
    kinds = [r.choice([(N, N), (N, N), (D, N), (N, D), (D, D)]) for _ in range(nd)]
    pick = lambda i, ax: r.choice([kinds[ax], (D, D), (N, N)]) if each else kinds[ax]
    w = tuple(grids.GridVariable(u.array, hom([pick(i, ax) if x else (P, P) for ax, x in enumerate(walls)])) for i, u in enumerate(w))
  c = mkvar(dyarr(r, g.shape), g.cell_center, g, rand_bc(r, nd, [r.choice([(D, D), (N, N)]) if x else (P, P) for x in walls]))
  k = ''.join('W' if x else 'P' for x in walls)
  _, out = vlib.call(lambda: J(cadv.advect_linear)(c, w), cfield)
  ev.append(dict(op='colinear', k='collocated linear ' + k, c=field(c), w=[field(u) for u in w], dt=fx(dt), out=out,
                 homog=homog, laws=[] if any(walls) else ['conserve']))
  outs, out = vlib.call(lambda: J(cadv.convect_linear)(w), lambda x: dict(e=''))
  ev.append(dict(op='coconvect', k='collocated convect ' + k, w=[field(u) for u in w], out=out, homog=homog,
                 outs=[cfield(x) for x in outs] if outs is not None else []))
