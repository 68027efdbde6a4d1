"""C21: starting velocities, located arrays and spectral filters."""
import math
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx, field, gridj, offj, bcj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries as bd, initial_conditions as ic, filter_utils, pressure
from jax_cfd.collocated import initial_conditions as cic
from drv_c07 import SOLVERS

P, D, N = bd.BCType.PERIODIC, bd.BCType.DIRICHLET, bd.BCType.NEUMANN
KINDS = ['user', 'random', 'filter', 'user', 'wrap', 'random', 'user', 'filter', 'random', 'corandom']


def sessions(seed, tier):
  n = 170 if tier == 'quick' else 3000
  return [dict(seed=seed, i=i) for i in range(n)] + [dict(seed=seed, i=i, shells=1) for i in range(3 if tier == 'quick' else 30)]


def run(spec):
  r = rng_for(spec['seed'], 'c21', spec['i'])
  if spec.get('shells'):
    return do_shells(r, spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r)


def grid_of(r, nd, lo=2, hi=6):
  shape = tuple(r.randint(lo, 3 if nd == 3 else hi) for _ in range(nd))
  dom = []
  for _ in range(nd):
    a = r.choice([0., 0., -1., .5])
    dom.append((a, a + r.choice([1., 2., 3., 2 * math.pi])))
  if r.random() < .3:
    return grids.Grid(shape, step=1.)
  return grids.Grid(shape, domain=tuple(dom))


def per(nd):
  return bd.periodic_boundary_conditions(nd)


def wall_bcs(r, nd, walls):
  out = []
  for c in range(nd):
    types, vals = [], []
    for d in range(nd):
      if not walls[d]:
        types.append((P, P)); vals.append((0., 0.) if r.random() < .5 else (None, None))
      else:
        types.append((D, D)); vals.append((0., 0.) if d == c else (dy(r, -1, 1), dy(r, -1, 1)))
    out.append(bd.ConstantBoundaryConditions(types, vals))
  return tuple(out)


def fn_of(e, nd):
  def f(*x):
    z = e['a0'] + sum(a * y for a, y in zip(e['a'], x)) + e['b'] * x[0] * x[-1]
    return z + e['c'] * jnp.sin(e['k'] * x[e['d'] - 1])
  return f


def do_user(r):
  nd = r.choice([1, 2, 2, 2, 3])
  g = grid_of(r, nd)
  walls = [r.random() < .4 for _ in range(nd)]
  if r.random() < .5:
    walls = [False] * nd
  if any(walls):
    bcs = wall_bcs(r, nd, walls)
  else:
    bcs = r.choice([None, (per(nd),) * nd])
  es = [dict(a0=dy(r, -1, 1), a=[dy(r, -1, 1) if r.random() < .6 else 0. for _ in range(nd)], b=r.choice([0., 0., .25, -.5]),
             c=r.choice([0., 1., -.5]), k=r.choice([1, 1, 2]), d=r.randint(1, nd)) for _ in range(nd)]
  iters = r.choice([-1, -1, 0, 1, 1, 2, 3])
  kw = {}
  if bcs is not None:
    kw['velocity_bc'] = bcs
  if iters >= 0:
    kw['iterations'] = iters
  name = 'default'
  if iters > 0 and r.random() < .4:
    name = r.choice(['cg', 'matmul', 'channel'])
    kw['pressure_solve'] = SOLVERS[name]
  fns = tuple(fn_of(e, nd) for e in es)
  outs, o = vlib.call(lambda: ic.initial_velocity_field(fns, g, **kw), lambda z: dict(e=''))
  js = [dict(a0=fx(e['a0']), a=[fx(x) for x in e['a']], b=fx(e['b']), c=fx(e['c']), k=e['k'], d=e['d']) for e in es]
  return [dict(op='user', k='user functions, %s projections (%s)' % (iters, name), fns=js, g=gridj(g), iters=iters,
               bcs=[bcj(b) for b in (bcs or (per(nd),) * nd)], out=o, outs=[field(u) for u in outs] if outs is not None else [],
               tol=(512 if iters <= 0 else 2048) * (2 if name == 'cg' else 1))]


def do_wrap(r):
  nd = r.choice([1, 2, 2, 3])
  g = grid_of(r, nd)
  count = r.choice([nd, nd, 1]) if r.random() < .3 else nd
  offs = r.choice([None, None, 'x'])
  if offs is not None:
    offs = tuple(tuple(r.choice([0., .5, 1.]) for _ in range(nd)) for _ in range(count))
  used = offs if offs is not None else g.cell_faces
  bcs = []
  for c in range(count):
    types, vals = [], []
    for d in range(nd):
      k = r.choice('PPDDN')
      if k == 'N' and used[c][d] != .5:
        k = 'D'
      types.append({'P': (P, P), 'D': (D, D), 'N': (N, N)}[k])
      vals.append((None, None) if k == 'P' else (dy(r, -1, 1), dy(r, -1, 1)))
    bcs.append(bd.ConstantBoundaryConditions(types, vals))
  if count < nd and offs is None:
    used = used[:count]
  batch = r.choice([0, 0, 2, 3])
  data = [[dyarr(r, g.shape) for _ in range(count)] for _ in range(max(batch, 1))]
  kw = {} if offs is None else dict(offsets=offs)
  if batch:
    kw['batch_dim'] = True
    arg = tuple(jnp.asarray(np.stack([data[b][c] for b in range(batch)])) for c in range(count))
  else:
    arg = tuple(jnp.asarray(a) for a in data[0])
  if r.random() < .3:
    arg = list(arg)
  fn = lambda: ic.wrap_variables(arg, g, tuple(bcs), **kw)
  outs, o = vlib.call(fn, lambda z: dict(e=''))
  ev = []
  for b in range(max(batch, 1)):
    fs = []
    if outs is not None:
      pick = (lambda u: u.data[b]) if batch else (lambda u: u.data)
      fs = [dict(arr(pick(u)), o=offj(u.offset), g=gridj(u.grid), bc=bcj(u.bc)) for u in outs]
    ev.append(dict(op='wrap', k='located arrays%s' % (' in a batch' if batch else ''), a=[arr(x) for x in data[b]], g=gridj(g),
                   off=[offj(x) for x in used], bcs=[bcj(x) for x in bcs], out=o, outs=fs))
  return ev


def random_grid(r, co):
  nd = r.choice([2, 2, 3])
  shape = [r.randint(3, 3 if nd == 3 else 6) for _ in range(nd)]
  if nd == 2 and r.random() < .2:
    shape[r.randrange(2)] = 2 if not co else 8
  L = [r.choice([1., 2., 2 * math.pi, 4.]) for _ in range(nd)]
  if r.random() < .4:
    L = [L[0]] * nd
  lo = r.choice([0., 0., -1.])
  return grids.Grid(tuple(shape), domain=tuple((lo, lo + x) for x in L))


def do_corandom(r):
  return do_random(r, True)


def do_random(r, co=False):
  g = random_grid(r, co)
  nd = g.ndim
  L = min(hi - lo for lo, hi in g.domain)
  low = 2 * math.pi / L
  peak = low * r.choice([1., 1.25, 1.5, 2.])
  if low <= 3. <= 2 * low and r.random() < .6:
    peak = 3.   # the stated value
  vmax = r.choice([1., 2., .5, 7.])
  seed = r.randrange(10 ** 6)
  mod = cic if co else ic
  iters = 3 if co else r.choice([None, 1, 2, 3])
  def make(s, p, every=False):
    kw = dict(iterations=3 if iters is None else iters, maximum_velocity=vmax, peak_wavenumber=p)
    if not every:   # options that have their stated value may be left out
      for name, value in (('iterations', 3), ('maximum_velocity', 1.), ('peak_wavenumber', 3.)):
        if kw[name] == value and r.random() < .7:
          kw.pop(name)
    return mod.filtered_velocity_field(jax.random.PRNGKey(s), g, **kw)
  j = r.choice([1, 2])
  def all4():
    a = make(seed, peak)
    again = jax.jit(lambda: make(seed, peak, True))() if r.random() < .3 else make(seed, peak, True)
    return a, again, make(seed + 1, peak), make(seed, peak * math.exp(j / 4))
  z, o = vlib.call(all4, lambda z: dict(e=''))
  a, again, other, high = z if z is not None else ([], [], [], [])
  h = min(g.step)
  return [dict(op='random', k='random %s state, %s' % ('collocated' if co else 'staggered', nd), where='collocated' if co else 'staggered', g=gridj(g),
               per=bcj(per(nd)), vmax=fx(vmax), j=j, out=o, outs=[field(u) for u in a], again=[field(u) for u in again],
               other=[field(u) for u in other], high=[field(u) for u in high],
               tol=int((256 + 64 * vmax / h) * (8 if co else 1)), rtol=int(512 * (1 + vmax) * (4 if co else 1)))]


def do_filter(r):
  nd = r.choice([1, 2, 2, 3])
  g = grid_of(r, nd)
  Nn = int(np.prod(g.shape))
  w = [dy(r, -1, 1), r.choice([0, 0, 1 / 16, -1 / 8]), r.choice([0, 0, 1 / 256]), r.choice([0, 0, 1., -.5])]
  def fn(k):
    z = w[0] + w[1] * k + w[2] * k * k
    return z + w[3] / k ** 2 if w[3] else z
  a = dyarr(r, g.shape, -2, 2)
  run_ = lambda: filter_utils.filter(fn, jnp.asarray(a), g)
  if r.random() < .2:
    run_ = lambda: jax.jit(lambda x: filter_utils.filter(fn, x, g))(jnp.asarray(a))
  _, out = vlib.call(run_, lambda z: dict(arr(z), e=''))
  top = 2 * math.pi * math.sqrt(sum((.5 / h) ** 2 for h in g.step))
  amp = abs(w[0]) + abs(w[1]) * top + abs(w[2]) * top * top + abs(w[3])
  return [dict(op='filter', k='filter on %s' % (g.shape,), w=[fx(x) for x in w], g=gridj(g), a=arr(a), out=out, tol=int(64 * Nn * (1 + amp)))]


def do_shells(r, i):
  co = i % 3 == 2
  L = r.choice([2 * math.pi, 1., 4.])
  g = grids.Grid((6, 6) if not co else (7, 7), domain=((0, L), (0, L)))
  base = 2 * math.pi / L
  peak = base * (1.5 if i % 2 else 2.)
  mod = cic if co else ic
  keys = [1000 * r.randrange(1000) + k for k in range(32)]
  def fn():
    f = jax.jit(lambda k: tuple(u.data for u in mod.filtered_velocity_field(k, g, maximum_velocity=8., peak_wavenumber=peak)))
    return [f(jax.random.PRNGKey(k)) for k in keys]
  runs, o = vlib.call(fn, lambda z: dict(e=''))
  shells = [fx(q / L ** 2) for q in (1, 2, 4, 5)]
  return [dict(op='shells', k='spectrum of %s states' % ('collocated' if co else 'staggered'), g=gridj(g), lm=fx(math.log(peak)), shells=shells,
               out=o, runs=[[arr(u) for u in z] for z in (runs or [])], tol=fx(.9), itol=fx(1.25))]
