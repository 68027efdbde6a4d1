"""C23: encoders, decoders, network wrappers, learned viscosities, scheme modules, modular models."""
import functools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, carr, fx, field, gridj, bcj, offj
import haiku as hk
import jax
import jax.numpy as jnp
from jax_cfd.base import boundaries as bd, grids, interpolation
from jax_cfd.ml import advections, decoders, encoders, interpolations as mint, model_builder, networks, physics_specifications as mps
from jax_cfd.ml import time_integrators, viscosities
from drv_c20 import rgrid, velocity, strain
from drv_c03 import cfield

D, N, P = bd.BCType.DIRICHLET, bd.BCType.NEUMANN, bd.BCType.PERIODIC
KINDS = ['encode', 'slice', 'latent', 'decode', 'stack', 'split', 'network', 'visc', 'curl', 'advect', 'model', 'walls', 'euler', 'slice', 'split', 'curl']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(320 if tier == 'quick' else 6000)]


def run(spec):
  r = rng_for(spec['seed'], 'c23', spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r)


def hkrun(build, *args):
  fn = hk.without_apply_rng(hk.transform(lambda *a: build()(*a)))
  return vlib.call(lambda: fn.apply(fn.init(jax.random.PRNGKey(0), *args), *args), lambda z: dict(e=''))


def per(nd):
  return bd.periodic_boundary_conditions(nd)


class Combo:
  """Physics specifications that say where components live and how they end."""

  def __init__(self, offsets, bcs):
    self.forcing_module = None
    self._o, self._b = offsets, bcs

  def combo_offsets(self):
    return self._o

  def combo_boundaries(self):
    return self._b


def rbc(r, nd, edge_free=True):
  types, vals = [], []
  for _ in range(nd):
    k = r.choice(['P', 'W', 'W'])
    if k == 'P':
      types.append((P, P)); vals.append((0., 0.))
    else:
      types.append((r.choice([D, N] if edge_free else [D]), r.choice([D, N] if edge_free else [D])))
      vals.append((dy(r, -1, 1), dy(r, -1, 1)))
  return bd.ConstantBoundaryConditions(types, tuple(vals))


def fields(x):
  return [field(u) for u in x] if x is not None else []


def arrays(x):
  return [dict(arr(a), e='') for a in x] if x is not None else []


def traj(r, T, shape, n, hi=2):
  return tuple(dyarr(r, (T,) + shape, -hi, hi) for _ in range(n))


def mixer(r, cin, cout):
  M = np.array([[dy(r, -1, 1) for _ in range(cout)] for _ in range(cin)])
  b = np.array([r.choice([0., dy(r, -1, 1)]) for _ in range(cout)])
  return M, b


def tower(M, b, seen=None):
  """A network factory whose networks mix channels."""
  def factory(channels, ndim, **kw):
    if seen is not None:
      seen.append((channels, ndim))
    if channels != M.shape[1]:
      raise AssertionError('asked for %d channels' % channels)
    return lambda x: jnp.asarray(x) @ jnp.asarray(M) + jnp.asarray(b)
  return factory


def mj(M, b):
  return dict(M=[[fx(x) for x in row] for row in M], b=[fx(x) for x in b])


def any_offsets(r, nd, n):
  return tuple(tuple(r.choice([0., .5, 1.]) for _ in range(nd)) for _ in range(n))


def do_encode(r):
  g = rgrid(r, nmin=2)
  nd = g.ndim
  ev = []
  T = r.choice([1, 2, 3, 4])
  kind = r.choice(['aligned', 'aligned', 'interpolated', 'offsets', 'imposed'])
  specs = mps.BasePhysicsSpecs(forcing_module=None)
  bcs = tuple(per(nd) for _ in range(nd))
  frm = to = g.cell_faces
  n = nd
  if kind == 'aligned':
    enc = lambda: encoders.aligned_array_encoder(g, .1, specs)
  elif kind == 'interpolated':
    frm = (g.cell_center,) * nd
    enc = lambda: encoders.collocated_to_staggered_encoder(g, .1, specs)
  elif kind == 'offsets':
    n = r.randint(1, 3)
    frm = to = any_offsets(r, nd, n)
    bcs = tuple(per(nd) for _ in range(n))
    enc = lambda: encoders.aligned_array_encoder(g, .1, specs, data_offsets=frm)
  else:
    n = r.randint(1, 3)
    frm = to = tuple(tuple(r.choice([.5, 1.]) for _ in range(nd)) for _ in range(n))
    bcs = tuple(rbc(r, nd, edge_free=False) for _ in range(n))
    enc = lambda: encoders.aligned_array_encoder(g, .1, Combo(frm, bcs))
  xs = traj(r, T, g.shape, n)
  outs, out = vlib.call(lambda: enc()(tuple(jnp.asarray(x) for x in xs) if r.random() < .7 else xs), lambda z: dict(e=''))
  ev.append(dict(op='encode', k='%s encoder, %d frames on %s' % (kind, T, g.shape), kind=kind, xs=[arr(x) for x in xs], offs=[offj(o) for o in frm],
                 to=[offj(o) for o in to], bcs=[bcj(b) for b in bcs], g=gridj(g), out=out, outs=fields(outs)))
  return ev


def do_slice(r):
  ev = []
  g = rgrid(r, nd=r.choice([1, 2]))
  rank = r.randint(1, 3)
  axis = r.choice([0, 0] + list(range(rank)) + [-1])
  T = r.choice([2, 3, 4])
  n = r.randint(1, min(T, 3))
  shapes = []
  for _ in range(r.randint(1, 3)):
    sh = [r.choice([2, 3, 4]) for _ in range(rank)]
    shapes.append(sh)
  kind = r.choice(['last', 'lastn', 'stack', 'stack'])
  if kind == 'stack':
    shapes = [list(shapes[0]) for _ in shapes]
  for sh in shapes:
    sh[axis] = T
  xs = tuple(dyarr(r, tuple(sh), -2, 2) for sh in shapes)
  kw = {} if axis == 0 and r.random() < .5 else dict(time_axis=axis)
  e = dict(last=lambda: encoders.slice_last_state_encoder(g, .1, None, **kw),
           lastn=lambda: encoders.slice_last_n_state_encoder(g, .1, None, n=n, **kw),
           stack=lambda: encoders.stack_last_n_state_encoder(g, .1, None, n=n, **kw))[kind]
  inp = tuple(jnp.asarray(x) for x in xs)
  outs, out = vlib.call(lambda: e()(inp), lambda z: dict(e=''))
  if outs is not None and kind == 'stack':
    outs = (outs,)
  ev.append(dict(op='slice', k='%s of %s along %d, %d of %d' % (kind, shapes, axis, n, T), kind=kind, axis=axis, n=n, xs=[arr(x) for x in xs],
                 out=out, outs=arrays(outs)))
  return ev


def do_latent(r):
  g = rgrid(r, nd=r.choice([1, 2, 2]), nmax=4)
  nd = g.ndim
  kind = r.choice(['encode', 'encodef', 'decode', 'decodef'])
  ev = []
  if kind in ('encode', 'encodef'):
    T = r.choice([1, 2, 3]); n = r.randint(1, T); nc = r.randint(1, 3)
    lat = r.choice([nd, r.randint(1, 4)])
    axis = 0 if kind == 'encodef' or r.random() < .6 else r.choice([-1, nd])
    xs = traj(r, T, g.shape, nc)
    if axis != 0:
      xs = tuple(np.moveaxis(x, 0, -1) for x in xs)
    M, b = mixer(r, n * nc, lat)
    offs = g.cell_faces if r.random() < .5 else any_offsets(r, nd, lat)
    kw = dict(time_axis=axis) if axis else {}
    if kind == 'encode':
      build = lambda: encoders.latent_encoder(g, .1, None, tower(M, b), lat, n, **kw)
    else:
      if offs != g.cell_faces:
        kw['data_offsets'] = offs
      build = lambda: encoders.aligned_latent_encoder(g, .1, None, tower(M, b), lat, n, **kw)
    outs, out = hkrun(build, tuple(jnp.asarray(x) for x in xs))
    res = ([] if outs is None else arrays([outs]) if kind == 'encode' else fields(outs))
    ev.append(dict(op='latent', k='%s %d of %d frames, %d -> %d channels, axis %d' % (kind, n, T, nc, lat, axis), kind=kind, n=n, axis=axis,
                   xs=[arr(x) for x in xs], offs=[offj(o) for o in offs], g=gridj(g), out=out, outs=res, **mj(M, b)))
  else:
    cin = r.randint(1, 4)
    num = r.choice([None, r.randint(1, 4)])
    M, b = mixer(r, cin, num or nd)
    kw = {} if num is None and r.random() < .5 else dict(num_components=num)
    if kind == 'decode':
      x = dyarr(r, g.shape + (cin,), -2, 2)
      outs, out = hkrun(lambda: decoders.latent_decoder(g, .1, None, tower(M, b), **kw), jnp.asarray(x))
      xs = [x]
    else:
      xs = [dyarr(r, g.shape, -2, 2) for _ in range(cin)]
      w = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(x), o, g), per(nd)) for x, o in zip(xs, any_offsets(r, nd, cin)))
      outs, out = hkrun(lambda: decoders.aligned_latent_decoder(g, .1, None, tower(M, b), **kw), w)
    ev.append(dict(op='latent', k='%s %d channels' % (kind, cin), kind=kind, n=0, axis=0, xs=[arr(x) for x in xs], offs=[], g=gridj(g), out=out,
                   outs=arrays(outs), **mj(M, b)))
  return ev


def state(r, g, n=None, offs=None, bcs=None, hi=2):
  n = n or g.ndim
  offs = offs or (g.cell_faces if n == g.ndim else any_offsets(r, g.ndim, n))
  bcs = bcs or [per(g.ndim)] * n
  return tuple(grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, g.shape, -hi, hi)), o, g), b) for o, b in zip(offs, bcs))


def do_decode(r):
  g = rgrid(r)
  ev = []
  w = state(r, g, n=r.choice([None, r.randint(1, 3)]))
  outs, out = vlib.call(lambda: decoders.aligned_array_decoder(g, .1, None)(w), lambda z: dict(e=''))
  ev.append(dict(op='decode', k='aligned decoder', kind='plain', w=fields(w), out=out, outs=arrays(outs)))
  w = state(r, g)
  outs, out = vlib.call(lambda: decoders.staggered_to_collocated_decoder(g, .1, None)(w), lambda z: dict(e=''))
  ev.append(dict(op='decode', k='staggered to collocated %s' % (g.shape,), kind='centred', w=fields(w), out=out, outs=arrays(outs)))
  outs, out = vlib.call(lambda: decoders.identity_decoder(g, .1, None)(w), lambda z: dict(e=''))
  ev.append(dict(op='decode', k='identity decoder', kind='plain', w=fields(w), out=out, outs=arrays([u.data for u in outs]) if outs else []))
  x = dyarr(r, g.shape + (r.randint(1, 4),), -2, 2)
  outs, out = vlib.call(lambda: decoders.channels_split_decoder(g, .1, None)(jnp.asarray(x)), lambda z: dict(e=''))
  ev.append(dict(op='split', k='channels split', kind='arrays', xs=[arr(x)], out=out, outs=arrays(outs)))
  return ev


def do_stack(r):
  ev = []
  for _ in range(2):
    g = rgrid(r)
    w = state(r, g, n=r.choice([None, r.randint(1, 3)]))
    n = r.choice([0, 1, 1, 2])
    kw = {} if n == 1 and r.random() < .5 else dict(n_neighbors=n)
    build = (lambda: networks.stack_aligned_field(g, .1, None)) if n == 0 else (lambda: networks.stack_aligned_field_with_neighbors(g, .1, None, **kw))
    outs, out = hkrun(build, w)
    ev.append(dict(op='stack', k='stack %d fields with %d neighbours on %s' % (len(w), n, g.shape), n=n, w=fields(w), out=out,
                   outs=arrays([outs]) if outs is not None else []))
  return ev


def do_split(r):
  g = rgrid(r)
  nd = g.ndim
  specs = mps.BasePhysicsSpecs(forcing_module=None)
  kind = r.choice(['fields', 'fields', 'flux', 'combo'])
  to, bcs, n = g.cell_faces, [per(nd)] * nd, nd
  frm = to
  if kind == 'flux':
    n = nd * nd
    build = lambda: networks.aligned_field_from_split_divergence(g, .1, specs)
  else:
    if kind == 'combo':
      n = r.randint(1, 3)
      to = any_offsets(r, nd, n)
      bcs = [per(nd)] * n if r.random() < .5 else [bd.ConstantBoundaryConditions([(D, D)] * nd, [(dy(r, -1, 1), dy(r, -1, 1))] * nd) for _ in range(n)]
      if bcs[0].types[0][0] != P:
        to = tuple(tuple(r.choice([.5, 1.]) for _ in range(nd)) for _ in range(n))
      specs = Combo(to, bcs)
    frm = to
    kw = {}
    if r.random() < .6 and all(b.types[0][0] == P for b in bcs):
      frm = any_offsets(r, nd, n) if r.random() < .6 else (g.cell_center,) * n
      kw = dict(network_offsets=frm)
    build = lambda: networks.split_to_aligned_field(g, .1, specs, **kw)
  x = dyarr(r, g.shape + (n,), -1, 1)
  outs, out = hkrun(build, jnp.asarray(x))
  return [dict(op='split', k='split %s on %s' % (kind, g.shape), kind='flux' if kind == 'flux' else 'fields', xs=[arr(x)],
               **{'from': [offj(o) for o in frm]}, to=[offj(o) for o in to], bcs=[bcj(b) for b in bcs], g=gridj(g), out=out, outs=fields(outs))]


def do_network(r):
  g = rgrid(r, nmax=4)
  nd = g.ndim
  specs = mps.BasePhysicsSpecs(forcing_module=None)
  w = state(r, g, hi=1)
  kind = r.choice(['velocity', 'flux', 'flux', 'plain'])
  n = r.choice([0, 1]) if kind in ('flux', 'plain') else 0
  cin = nd * (1 + 2 * n * nd)
  cout = dict(velocity=nd, flux=nd * nd, plain=r.randint(1, 3))[kind]
  same = kind == 'plain' and r.random() < .4
  if same:
    cout = cin
  M, b = mixer(r, cin, cout)
  seen = []
  pre = networks.stack_aligned_field_with_neighbors if n else networks.stack_aligned_field
  if kind == 'velocity':
    build = lambda: networks.velocity_corrector_network(g, .1, specs, tower(M, b, seen))
  elif kind == 'flux':
    kw = {} if n == 0 else dict(pre_process_module=networks.stack_aligned_field_with_neighbors)
    build = lambda: networks.flux_corrector_network(g, .1, specs, tower(M, b, seen), **kw)
  else:
    kw = {} if same else dict(num_output_channels=cout)
    build = lambda: networks.tower_module(g, .1, specs, tower(M, b, seen), pre_process_module=pre, **kw)
  outs, out = hkrun(build, w)
  res = [] if outs is None else arrays([outs]) if kind == 'plain' else fields(outs)
  return [dict(op='network', k='%s network, %d neighbours, %s' % (kind, n, g.shape), kind=kind, n=n, w=fields(w), to=[offj(o) for o in g.cell_faces],
               bcs=[bcj(per(nd))] * nd, g=gridj(g), out=out, outs=res, **{'from': []}, **mj(M, b))]


def do_walls(r):
  g = rgrid(r, nd=r.choice([1, 2, 2]), nmin=3)
  nd = g.ndim
  ev = []
  wall = r.random() < .6
  bcs = [bd.ConstantBoundaryConditions([(D, D)] * nd, [(dy(r, -1, 1), dy(r, -1, 1)) for _ in range(nd)]) if wall else per(nd) for _ in range(nd)]
  offs = g.cell_faces if not wall or r.random() < .5 else (g.cell_center,) * nd
  w = tuple(b.impose_bc(u.array) for b, u in zip(bcs, state(r, g, offs=offs, bcs=bcs, hi=1)))
  net = any_offsets(r, nd, nd) if not wall else (g.cell_center,) * nd
  specs = mps.BasePhysicsSpecs(forcing_module=None) if offs == g.cell_faces else Combo(offs, bcs)
  c = r.choice([1., 1., .5])
  kw = dict(process_fn=lambda v: tuple(grids.GridVariable(c * u.array, u.bc) for u in v)) if c != 1 or r.random() < .5 else {}
  fin = dict(final_offsets=net) if r.random() < .7 else {}
  outs, out = hkrun(lambda: networks.interpolate_gridvar(g, .1, specs, **fin, **kw), w)
  ev.append(dict(op='move', k='move fields, walls %s, %s' % (wall, g.shape), w=fields(w), scale=fx(c), to=[offj(o) for o in (net if fin else offs)],
                 out=out, outs=fields(outs)))
  M, b = mixer(r, nd, nd)

  def factory(channels, ndim, **kw):
    del ndim, kw
    if channels != nd:
      raise AssertionError('channels')

    def apply(v):
      x = jnp.stack([u.data for u in v], -1) @ jnp.asarray(M) + jnp.asarray(b)
      return tuple(grids.GridVariable(grids.GridArray(x[..., i], u.offset, u.grid), u.bc) for i, u in enumerate(v))
    return apply
  kw = {} if r.random() < .5 else dict(process_fn=lambda v: v)
  outs, out = hkrun(lambda: networks.velocity_corrector_network_w_boundaries(g, .1, specs, factory, net, nd, **kw), w)
  ev.append(dict(op='network', k='network between walls %s, %s, %s' % (wall, g.shape, 'default' if not kw else 'given processing'), kind='walls', n=0,
                 w=fields(w), **{'from': [offj(o) for o in net]}, to=[offj(o) for o in offs], bcs=[bcj(b_) for b_ in bcs], g=gridj(g), out=out,
                 outs=fields(outs), **mj(M, b)))
  return ev


def do_visc(r):
  g = rgrid(r, nmin=2, nmax=4, nd=r.choice([1, 2, 2, 3]))
  nd = g.ndim
  v, _ = velocity(r, g, kind='random')
  S = strain(g, v)
  kind = r.choice(['scalar', 'gradients', 'tensor'])
  if kind == 'tensor':
    cin, cout = nd, len({tuple(a.offset) for a in S.ravel()})
  else:
    cin, cout = (nd if kind == 'scalar' else nd * nd), 1
  M, b = mixer(r, cin, cout)
  M, b = M / 4, b
  scale = r.choice([.5, 1., .25])
  mod = dict(scalar=viscosities.learned_scalar_viscosity, gradients=viscosities.learned_scalar_viscosity_from_gradients,
             tensor=viscosities.learned_tensor_viscosity)[kind]
  specs = mps.NavierStokesPhysicsSpecs(forcing_module=None, density=1., viscosity=scale)
  fn = hk.without_apply_rng(hk.transform(lambda s, v: mod(g, .1, specs, viscosity_scale=scale, tower_factory=tower(M, b))(s, v)))
  outs, out = vlib.call(lambda: fn.apply({}, S, v), lambda z: dict(e=''))
  flat = []
  if outs is not None:
    flat = [arr(getattr(outs[i, j], 'data', outs[i, j])) for i in range(nd) for j in range(nd)]
  return [dict(op='viscosity', k='%s viscosity on %s' % (kind, g.shape), kind=kind, w=fields(v), scale=fx(scale), out=out, outs=flat, **mj(M, b))]


def band(a):
  """Without the components at the Nyquist frequency."""
  h = np.fft.fft2(a)
  for ax, n in enumerate(a.shape):
    if n % 2 == 0:
      sl = [slice(None)] * 2; sl[ax] = n // 2; h[tuple(sl)] = 0
  return np.fft.ifft2(h).real


def cx(a):
  a = np.asarray(a)
  return dict(s=list(a.shape), re=arr(a.real)['v'], im=arr(a.imag)['v'])


def do_curl(r):
  shape = (r.randint(3, 6), r.randint(3, 6))
  L = [r.choice([1., 2., 2 * np.pi]) for _ in range(2)]
  g = grids.Grid(shape, domain=((0., L[0]), (0., L[1])))
  ku = [fx(2 * np.pi / l) for l in L]
  ev = []
  T = r.randint(1, 3)
  xs = [np.stack([band(dyarr(r, shape, -1, 1)) for _ in range(T)]) for _ in range(2)]
  kind = r.choice(['spectral', 'real', 'both'])
  mod = dict(spectral=encoders.spectral_vorticity_encoder, real=encoders.vorticity_encoder, both=encoders.vorticity_velocity_encoder)[kind]
  o, out = vlib.call(lambda: np.asarray(mod(g, .1, None)(tuple(jnp.asarray(x) for x in xs))), lambda z: dict(e=''))
  uh = [cx(np.fft.rfft2(x[-1])) for x in xs]
  half = [shape[0], shape[1] // 2 + 1]
  want = dict(spectral=half, real=list(shape) + [1], both=list(shape) + [3])[kind]
  oh, sizes = [], []
  if o is not None:
    sizes = list(o.shape)
    if sizes == want:
      oh = [cx(o)] if kind == 'spectral' else [cx(np.fft.rfft2(o[..., 0]))] if kind == 'real' else [cx(np.fft.rfft2(o[..., i])) for i in (2, 0, 1)]
  ev.append(dict(op='curl', k='%s vorticity on %s' % (kind, shape), kind=kind, uh=uh, ku=ku, out=out, sizes=sizes, want=want, oh=oh, tol=96))
  w = band(dyarr(r, shape, -1, 1))
  kind = r.choice(['spectral', 'real'])
  wh = np.fft.rfft2(w)
  if kind == 'spectral':
    o, out = vlib.call(lambda: [np.asarray(x) for x in decoders.spectral_vorticity_decoder(g, .1, None)(jnp.asarray(wh))], lambda z: dict(e=''))
  else:
    o, out = vlib.call(lambda: [np.asarray(x) for x in decoders.vorticity_decoder(g, .1, None)(jnp.asarray(w)[..., None])], lambda z: dict(e=''))
  sizes = [list(x.shape) for x in o] if o is not None else []
  ev.append(dict(op='velocity', k='velocity from %s vorticity on %s' % (kind, shape), wh=cx(wh), ku=ku, out=out, sizes=sizes, want=[list(shape)] * 2,
                 oh=[cx(np.fft.rfft2(x)) for x in o] if sizes == [list(shape)] * 2 else [], tol=96))
  return ev


def do_advect(r):
  g = rgrid(r, nmin=3)
  nd = g.ndim
  v, _ = velocity(r, g)
  dt = r.choice([1 / 8, 1 / 16])
  specs = mps.NavierStokesPhysicsSpecs(forcing_module=None, density=1., viscosity=.1)
  scheme = r.choice(['linear', 'upwind', 'upwind', 'vanleer2', 'vanleer2'])
  cm = dict(linear=mint.linear, upwind=mint.upwind, vanleer2=mint.transformed)[scheme]
  self_ = r.random() < .5
  tagged = r.random() < .3
  kw = {} if scheme == 'upwind' and r.random() < .5 else dict(c_interpolation_module=cm)
  if scheme == 'vanleer2' or r.random() < .5:
    kw['v'] = v
  if tagged:
    def both(grid, dt, specs, **k):
      ci, ui = cm(grid, dt, specs, v=v), interpolation.linear
      return lambda c, offset, vv, dt=None, tag=None: dict(c=ci, u=ui)[tag](c, offset, vv, dt)
    mod = functools.partial(advections.modular_self_advection, interpolation_module=both)
    kw = {}
  else:
    mod = advections.modular_advection
  c = grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, g.shape, -1, 1)), g.cell_center, g), per(nd))
  if self_:
    if mod is not advections.modular_advection or r.random() < .5:
      kw['advection_module'] = mod
    fn = lambda: advections.self_advection(g, dt, specs, **kw)(v)
  else:
    fn = lambda: (mod(g, dt, specs, **kw)(c, v, dt),)
  outs, out = vlib.call(fn, lambda z: dict(e=''))
  return [dict(op='advect', k='%s module%s%s on %s' % (scheme, ' self' if self_ else '', ' tagged' if tagged else '', g.shape), self=self_, scheme=scheme,
               w=fields(v), c=field(c), dt=fx(dt), g=gridj(g), out=out, outs=[cfield(a) for a in outs] if outs is not None else [])]


def do_model(r):
  g = rgrid(r, nd=r.choice([1, 2]), nmax=4)
  nd = g.ndim
  T = r.randint(1, 3)
  xs = traj(r, T, g.shape, nd, hi=1)
  a, b = dy(r, -1, 1), dy(r, -1, 1)
  kind = r.choice(['aligned', 'centred'])
  specs = mps.BasePhysicsSpecs(forcing_module=None)
  enc, dec = dict(aligned=(encoders.aligned_array_encoder, decoders.aligned_array_decoder),
                  centred=(encoders.collocated_to_staggered_encoder, decoders.staggered_to_collocated_decoder))[kind]

  def adv(grid, dt, physics_specs):
    del dt, physics_specs
    return lambda v: tuple(grids.GridVariable(a * u.array + b, u.bc) for u in v)
  outer, inner, first = r.randint(1, 3), r.randint(1, 3), r.random() < .5
  by_cls = r.random() < .5

  def build():
    kw = dict(advance_module=adv, encoder_module=enc, decoder_module=dec)
    if by_cls:
      m = model_builder.get_model_cls(g, .1, specs, model_cls=model_builder.ModularStepModel)(**kw)
    else:
      m = model_builder.ModularStepModel(g, .1, specs, **kw)
    return lambda x: m.trajectory(m.encode(x), outer, inner, start_with_input=first, post_process_fn=m.decode)
  res, out = hkrun(build, tuple(jnp.asarray(x) for x in xs))
  fin, outs = res if res is not None else (None, None)
  return [dict(op='model', k='%s model %d x %d on %s' % (kind, outer, inner, g.shape), kind=kind, xs=[arr(x) for x in xs], a=fx(a), b=fx(b), outer=outer,
               inner=inner, first=first, g=gridj(g), out=out, outs=arrays(outs), fin=fields(fin))]


def do_euler(r):
  xs = tuple(dyarr(r, tuple(r.randint(1, 3) for _ in range(r.randint(1, 2))), -1, 1) for _ in range(r.randint(1, 3)))
  a, b, dt, n = dy(r, -2, 2), dy(r, -1, 1), r.choice([.25, .125]), r.randint(1, 4)
  build = lambda: (lambda x: time_integrators.euler_integrator(lambda s: jax.tree.map(lambda y: a * y + b, s), x, dt, n))
  res, out = hkrun(build, tuple(jnp.asarray(x) for x in xs))
  fin, tr = res if res is not None else (None, None)
  return [dict(op='euler', k='%d forward Euler steps' % n, xs=[arr(x) for x in xs], a=fx(a), b=fx(b), dt=fx(dt), n=n, out=out, outs=arrays(fin),
               traj=arrays(tr))]
