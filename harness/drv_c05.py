"""C05: interpolation between locations and at points."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, fx, offj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, interpolation as itp
from drv_c01 import rand_grid, rand_bc, P, D, N


def sessions(seed, tier):
  n = 600 if tier == 'quick' else 7000
  return [dict(seed=seed, i=i) for i in range(n)]


def loc_for(r, bc, nd):
  off = []
  for ax in range(nd):
    t = bc.types[ax]
    off.append(.5 if N in t else r.choice([0., .5, 1.]))
  return tuple(off)


def key_of(bc, off):
  return ' '.join('%s@%g' % (''.join(vlib.TYPES[x] for x in t), o) for t, o in zip(bc.types, off))


def run(spec):
  r = rng_for(spec['seed'], 'c05', spec['i'])
  kind = ['linear', 'upwind', 'lw', 'limited', 'point', 'linear', 'limited'][spec['i'] % 7]
  g = rand_grid(r, None, 2, 4)
  nd = g.ndim
  bc = rand_bc(r, nd)
  off = loc_for(r, bc, nd)
  dtype = np.float64
  c = grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, g.shape, dtype=dtype)), off, g), bc)
  ev = [dict(op='new', k=key_of(bc, off), f=field(c), to=offj(off), v=[[]] * nd)]
  jit = r.random() < .1
  def call(fn, *a):
    return vlib.call(lambda: (jax.jit(fn) if jit else fn)(*a))
  if kind == 'linear':
    to = []
    for ax in range(nd):
      t = bc.types[ax]
      choices = [off[ax], 0., .5, 1., .25, .75, -.5, 1.5, off[ax] + 1]
      if t[0] != P and g.shape[ax] < 3:
        choices = [off[ax], 0., .5, 1., .25]
      to.append(r.choice(choices))
    to = tuple(to)
    _, out = call(lambda x: itp.linear(x, to), c)
    ev.append(dict(op='linear', k='linear %s -> %s' % (key_of(bc, off), to), to=offj(to), v=[[]] * nd, out=out))
    return ev
  if kind == 'point':
    npts = 6
    coords = []
    for _ in range(npts):
      coords.append([r.choice([r.randint(-6, 4 * n + 6) / 4, r.randint(-3, n + 2) * 1.0, r.randint(0, 8 * n) / 8]) for n in g.shape])
    order = r.choice([1, 1, 1, 0])
    mode = r.choice(['nearest', 'wrap', 'mirror', 'reflect', 'constant', None])
    cval = dy(r)
    if order == 0:
      coords = [[x + .25 if (x - o) % 1 == .5 else x for x, o in zip(p, off)] for p in coords]
    pts = np.array([[d[0] + x * h for x, h, d in zip(p, g.step, g.domain)] for p in coords])
    kw = dict(order=order, cval=cval)
    if mode: kw['mode'] = mode
    if mode is None and order == 1 and r.random() < .5:
      kw = {}
    fn = lambda p: itp.point_interpolation(p, c.array, **kw)
    if r.random() < .5:
      _, out = vlib.call(lambda: jax.vmap(fn)(jnp.asarray(pts)), lambda x: dict(arr(x), e=''))
    else:
      _, out = vlib.call(lambda: jnp.stack([fn(p) for p in pts]), lambda x: dict(arr(x), e=''))
    m = kw.get('mode', 'nearest')
    ev.append(dict(op='point', k='point %s order%d' % (m, order), to=offj(off), v=[[]] * nd, out=out,
                   pts=[[fx(x) for x in p] for p in pts], mode=m, cval=fx(kw.get('cval', 0.)), order=order))
    return ev
  # donor-cell family
  ax = r.randrange(nd)
  to = list(off)
  if r.random() < .93:
    to[ax] = off[ax] + r.choice([.5, .5, .5, -.5]) if kind != 'limited' else off[ax] + r.choice([.5] * 9 + [-.5])
    if kind == 'upwind' and r.random() < .1:
      to[ax] = off[ax] + r.choice([1, -1])
    if nd > 1 and r.random() < .06 and kind != 'limited':
      b = (ax + 1) % nd
      to[b] = off[b] + .5
  to = tuple(to)
  if bc.types[ax][0] != P and g.shape[ax] < 3 and kind == 'limited':
    return []
  v = []
  for d in range(nd):
    w = r.choice([1.0, 2.0, .5])
    data = dyarr(r, g.shape, -1, 1) * w
    uo = to if d == ax else tuple(o + (.5 if e == d else 0) for e, o in enumerate(off))
    v.append(grids.GridVariable(grids.GridArray(jnp.asarray(data), uo, g), bc))
  v = tuple(v)
  dt = r.choice([.25, .5, .125, 1.])
  base = dict(to=offj(to), v=[dict(arr(u.data), o=offj(u.offset)) for u in v], dt=fx(dt))
  if kind == 'upwind':
    _, out = call(lambda x, w: itp.upwind(x, to, w, dt), c, v)
    ev.append(dict(base, op='upwind', k='upwind %s ax%d' % (key_of(bc, off), ax), out=out))
  elif kind == 'lw':
    _, out = call(lambda x, w: itp.lax_wendroff(x, to, w, dt), c, v)
    ev.append(dict(base, op='laxwendroff', k='lw %s ax%d' % (key_of(bc, off), ax), out=out))
  else:
    inner = r.choice(['linear', 'lax_wendroff', 'lax_wendroff'])
    lim = r.choice(['van_leer', 'van_leer', 'default', 'minmod', 'superbee', 'zero', 'one'])
    lims = dict(van_leer=itp.van_leer_limiter, minmod=lambda x: jnp.clip(x, 0, 1),
                superbee=lambda x: jnp.maximum(0, jnp.maximum(jnp.minimum(2 * x, 1), jnp.minimum(x, 2))),
                zero=lambda x: 0 * x, one=lambda x: 0 * x + 1)
    f = getattr(itp, inner)
    fn = itp.apply_tvd_limiter(f) if lim == 'default' else itp.apply_tvd_limiter(f, lims[lim])
    _, out = call(lambda x, w: fn(x, to, w, dt), c, v)
    ev.append(dict(base, op='limited', k='limited %s %s %s ax%d' % (inner, lim, key_of(bc, off), ax), out=out,
                   inner=inner, lim='van_leer' if lim == 'default' else lim))
    rr = np.array([r.randint(-40, 40) / 8 for _ in range(8)] + [-1., 0., 1.])
    _, o = vlib.call(lambda: itp.van_leer_limiter(jnp.asarray(rr)), lambda x: dict(arr(x), e=''))
    ev.append(dict(base, op='limiter', k='van_leer_limiter', r=arr(rr), out=o))
  return ev
