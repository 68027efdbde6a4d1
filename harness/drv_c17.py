"""C17: learned stencils satisfy their accuracy constraints for any network output."""
import itertools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, fx, offj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries
from jax_cfd.ml import layers, layers_util, interpolations
from drv_c01 import P, D, N

FV, FD = layers_util.Method.FINITE_VOLUME, layers_util.Method.FINITE_DIFFERENCE
KINDS = ['coef', 'constraint', 'deriv', 'interp', 'fuse', 'constraint', 'deriv', 'tower']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(400 if tier == 'quick' else 6000)]


def A(x):
  return dict(arr(x), e='')


def mat(a):
  return [[fx(x) for x in row] for row in np.atleast_2d(np.asarray(a, np.float64))]


def run(spec):
  r = rng_for(spec['seed'], 'c17', spec['i'])
  for _ in range(6):
    ev = globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r)
    if ev:
      return ev
  return []


def stencil_case(r, nd, maxsize=5):
  h = r.choice([.5, 1., 1., 2.])
  sizes = tuple(r.randint(1 if nd > 1 else 2, maxsize if nd == 1 else 3) for _ in range(nd))
  offs = tuple(r.choice([0., .5, .25]) for _ in range(nd))
  return h, sizes, offs


def stj(sts):
  return [[fx(x) for x in s] for s in sts]


def do_coef(r):
  ev = []
  for _ in range(3):
    nd = r.choice([1, 1, 2])
    h, sizes, offs = stencil_case(r, nd)
    sts, o = vlib.call(lambda: layers_util.get_stencils(sizes, offs, (h,) * nd), lambda z: dict(e='', v=stj(z)))
    ev.append(dict(op='stencil', k='stencil %s offset %s' % (sizes, offs), sizes=list(sizes), off=[fx(x) for x in offs], h=fx(h), out=o))
    if sts is None:
      continue
    orders = tuple(r.randint(0, min(2, n - 1)) for n in sizes)
    m = r.choice([FV, FD])
    acc = r.choice([None, 1, 2])
    if acc is not None and any(n - d - acc < 0 for n, d in zip(sizes, orders)):
      acc = None
    c, o = vlib.call(lambda: layers_util.polynomial_accuracy_coefficients(sts, m, orders, acc, h), A)
    ev.append(dict(op='coef', k='standard coefficients %s orders %s accuracy %s %s' % (sizes, orders, acc, m.name),
                   st=stj(sts), fv=m is FV, ord=list(orders), acc=acc or 0, h=fx(h), out=o))
    inp = tuple(r.choice([0., .5, 1., -.5]) for _ in range(nd))
    tgt = tuple(r.choice([0., .5, 1., -.5, 1.5]) for _ in range(nd))
    _, o = vlib.call(lambda: layers_util.get_roll_and_shift(inp, tgt), lambda z: dict(e='', roll=list(z[0]), sh=[fx(x) for x in z[1]]))
    ev.append(dict(op='roll', k='roll and shift %s to %s' % (inp, tgt), i=[fx(x) for x in inp], t=[fx(x) for x in tgt], out=o))
  t = r.randrange(4)
  s1 = (np.array([-.5, .5]),)
  bad = [lambda: layers_util.polynomial_accuracy_constraints(s1, FV, (0, 0), 1, 1.),
         lambda: layers_util.polynomial_accuracy_constraints(s1, FV, (0,), 0, 1.),
         lambda: layers_util.polynomial_accuracy_constraints(s1, FV, (0,), 1),
         lambda: layers.PolynomialConstraint((np.array([-1., 0., 1.]),) * 2, (0, 0), FD, (1., .5))][t]
  _, o = vlib.call(bad, lambda z: dict(e=''))
  ev.append(dict(op='refuse', k=['lengths', 'accuracy order zero', 'no grid step', 'nonuniform steps'][t], out=o, want=['ValueError']))
  return ev


def do_constraint(r):
  nd = r.choice([1, 1, 2])
  h, sizes, offs = stencil_case(r, nd)
  orders = tuple(r.randint(0, min(2, n - 1)) for n in sizes)
  m = r.choice([FV, FD])
  acc = r.choice([1, 1, 2, 3])
  sts = layers_util.get_stencils(sizes, offs, (h,) * nd)
  # number of polynomial conditions of the requested order
  bacc = r.choice([1, 1, acc])
  pc, o = vlib.call(lambda: layers.PolynomialConstraint(sts, orders, m, (h,) * nd, accuracy_order=acc, bias_accuracy_order=bacc),
                    lambda z: dict(e=''))
  k = 'constraint %s orders %s accuracy %d %s' % (sizes, orders, acc, m.name)
  base = dict(st=stj(sts), fv=m is FV, ord=list(orders), acc=acc, h=fx(h), bacc=bacc)
  if pc is None:
    return [dict(base, op='noconstraint', k=k, out=o)]
  n = pc.subspace_size
  ev = []
  shape = tuple(r.randint(1, 3) for _ in range(r.randint(0, 2)))
  logits = dyarr(r, shape + (n,), -2, 2)
  f = (lambda z: jax.jit(pc)(z)) if r.random() < .2 else pc
  _, o = vlib.call(lambda: f(jnp.asarray(logits)), A)
  _, o0 = vlib.call(lambda: f(jnp.zeros((n,))), A)
  ev.append(dict(base, op='constrain', k=k, n=n, lg=arr(logits), out=o, zero=o0))
  # a user bias that satisfies the conditions is the image of zero; one that does not is refused
  if o['e'] == '' and r.random() < .5:
    b = np.asarray(pc(jnp.asarray(dyarr(r, (n,), -1, 1))), np.float64)
    pc2, o2 = vlib.call(lambda: layers.PolynomialConstraint(sts, orders, m, (h,) * nd, accuracy_order=acc, bias=b), lambda z: dict(e=''))
    if pc2 is None:
      ev.append(dict(op='raised', k='valid user bias', out=o2))
    else:
      _, o3 = vlib.call(lambda: pc2(jnp.zeros((n,))), A)
      ev.append(dict(op='same', k='zero gives the user bias', a=arr(b), out=o3))
    bad = b.copy()
    bad[r.randrange(len(bad))] += .5
    _, o4 = vlib.call(lambda: layers.PolynomialConstraint(sts, orders, m, (h,) * nd, accuracy_order=acc, bias=bad), lambda z: dict(e=''))
    ev.append(dict(op='refuse', k='user bias violating the constraint', out=o4, want=['ValueError']))
  return ev


def fill_logits(r, shape, n):
  return jnp.asarray(dyarr(r, shape + (n,), -1, 1))


def do_deriv(r):
  nd = r.choice([1, 2, 2])
  h, _, _ = stencil_case(r, nd)
  sizes = tuple(r.randint(1 if nd > 1 else 2, 4) for _ in range(nd))
  inp = tuple(r.choice([0., .5, 1.]) for _ in range(nd))
  tgt = tuple(r.choice([0., .5, 1., 1.5]) for _ in range(nd))
  orders = tuple(r.randint(0, min(1, n - 1)) for n in sizes)
  shape = tuple(r.randint(max(2, n), 5) for n in sizes)
  tile = None
  meth = r.choice(['roll', 'conv', 'roll'])
  if meth == 'conv' and r.random() < .5:
    tile = tuple(r.choice([t for t in range(1, n + 1) if n % t == 0 and n // t >= s // 2]) for n, s in zip(shape, sizes))
  k = 'derivative %s -> %s stencil %s orders %s %s' % (inp, tgt, sizes, orders, meth)
  try:
    d = layers.SpatialDerivativeFromLogits(sizes, inp, tgt, orders, (h,) * nd, meth, tile)
  except ValueError:
    return []
  x = dyarr(r, shape, -2, 2)
  lg = fill_logits(r, shape, d.subspace_size)
  c, oc = vlib.call(lambda: d.constraint(lg), A)
  J = jax.jit(d) if r.random() < .2 else d
  _, o = vlib.call(lambda: J(jnp.asarray(x)[..., None], lg), A)
  _, one = vlib.call(lambda: d(jnp.ones(shape + (1,)), lg), A)
  ev = [dict(op='deriv', k=k, x=arr(x), sizes=list(sizes), i=[fx(z) for z in inp], t=[fx(z) for z in tgt], ord=list(orders),
             h=fx(h), c=oc, out=o, one=one)]
  _, o2 = vlib.call(lambda: d(jnp.asarray(x)[..., None], jnp.concatenate([lg, lg[..., :1]], -1)), A)
  ev.append(dict(op='refuse', k='logits of the wrong size', out=o2, want=['ValueError']))
  return ev


def do_fuse(r):
  nd = r.choice([1, 2])
  h = 1.
  same = r.random() < .5
  ds = {}
  sz = tuple(r.randint(2, 4 if nd == 1 else 3) for _ in range(nd))
  for j in range(r.randint(1, 3)):
    sizes = sz if same else tuple(r.randint(2, 4 if nd == 1 else 3) for _ in range(nd))
    tgt = tuple(r.choice([.5, 1.]) for _ in range(nd))
    ds['d%d' % j] = (sizes, tgt)
  shape = tuple(r.randint(4, 5) for _ in range(nd))
  conv = r.random() < .4
  tile = (1,) * nd if conv or r.random() < .3 else None
  if tile and r.random() < .5:
    tile = tuple(2 if n % 2 == 0 else 1 for n in shape)
  try:
    dd = {k: layers.SpatialDerivativeFromLogits(s, (.5,) * nd, t, (0,) * nd, (h,) * nd,
                                                r.choice(['conv', 'roll']), tile) for k, (s, t) in ds.items()}
  except ValueError:
    return []
  fuse = same and r.random() < .5
  lgs = {k: fill_logits(r, shape, d.subspace_size) for k, d in dd.items()}
  alll = jnp.concatenate(list(lgs.values()), -1)
  if conv:   # the 1x1 convolution carries a single precision kernel
    alll = alll.astype(jnp.float32)
  fs, o = vlib.call(lambda: layers.fuse_spatial_derivative_layers(dd, alll, constrain_with_conv=conv, fuse_patches=fuse), lambda z: dict(e=''))
  k = 'fused %d layers conv %s patches %s tiles %s' % (len(dd), conv, fuse, tile)
  if fs is None:
    return [dict(op='raised', k=k, out=o)]
  ev = [dict(op='keys', k=k, a=sorted(dd), b=sorted(fs))]
  for key in r.sample(sorted(dd), len(dd)):
    x = dyarr(r, shape, -2, 2)
    sizes, tgt = ds[key]
    _, oc = vlib.call(lambda: dd[key].constraint(lgs[key]), A)
    _, o = vlib.call(lambda: fs[key](jnp.asarray(x)[..., None]), A)
    _, one = vlib.call(lambda: fs[key](jnp.ones(shape + (1,))), A)
    ev.append(dict(op='deriv', k=k, x=arr(x), sizes=list(sizes), i=[fx(.5)] * nd, t=[fx(z) for z in tgt], ord=[0] * nd,
                   h=fx(h), c=oc, out=o, one=one))
  if r.random() < .4:
    try:
      d = layers.SpatialDerivativeFromLogits((3,) * nd, (.5,) * nd, (0.,) + (.5,) * (nd - 1), (0,) * nd, (h,) * nd)
      _, o = vlib.call(lambda: layers.fuse_spatial_derivative_layers({'x': d}, fill_logits(r, shape, d.subspace_size)), lambda z: dict(e=''))
      ev.append(dict(op='refuse', k='fusing a layer that rolls', out=o, want=['ValueError']))
    except ValueError:
      pass
  return ev


class Net:
  """Stands for a neural network: a fixed linear map of its input channels."""

  def __init__(self, r):
    self.r, self.w, self.seen = r, {}, []

  def __call__(self, num_outputs, ndim=None, name=None):
    def fn(x):
      key = (num_outputs, x.shape[-1])
      if key not in self.w:
        self.w[key] = dyarr(self.r, (x.shape[-1], num_outputs), -.5, .5)
      out = jnp.tensordot(x, jnp.asarray(self.w[key]), axes=1)
      self.seen.append((np.asarray(x), np.asarray(out)))
      return out
    return fn


def do_tower(r):
  """SpatialDerivative: coefficients come from a network of the aligned input."""
  nd = r.choice([1, 2])
  h = r.choice([.5, 1.])
  sizes = tuple(r.randint(2, 3) for _ in range(nd))
  inp = tuple(r.choice([0., .5, 1.]) for _ in range(nd))
  tgt = tuple(r.choice([0., .5, 1., 1.5]) for _ in range(nd))
  orders = (0,) * nd
  shape = tuple(r.randint(3, 5) for _ in range(nd))
  net = Net(r)
  meth = r.choice(['roll', 'conv'])
  d, o = vlib.call(lambda: layers.SpatialDerivative(sizes, inp, tgt, orders, net, (h,) * nd, meth), lambda z: dict(e=''))
  if d is None:
    return []
  x = dyarr(r, shape, -2, 2)
  aux = [dyarr(r, shape + (r.randint(1, 2),), -2, 2) for _ in range(r.randint(0, 2))]
  _, o = vlib.call(lambda: d(jnp.asarray(x)[..., None], *[jnp.asarray(a) for a in aux]), A)
  if not net.seen:
    return [dict(op='raised', k='learned derivative', out=o)]
  seen, logits = net.seen[-1]
  pc = layers.PolynomialConstraint(layers_util.get_stencils(sizes, tuple((t - i) % 1 for t, i in zip(tgt, inp)), (h,) * nd),
                                   orders, FV, (h,) * nd)
  _, oc = vlib.call(lambda: pc(jnp.asarray(logits)), A)
  _, one = vlib.call(lambda: d(jnp.ones(shape + (1,)), *[jnp.asarray(a) for a in aux]), A)
  k = 'learned derivative %s -> %s %s' % (inp, tgt, meth)
  return [dict(op='deriv', k=k, x=arr(x), sizes=list(sizes), i=[fx(z) for z in inp], t=[fx(z) for z in tgt], ord=list(orders),
               h=fx(h), c=oc, out=o, one=one),
          dict(op='netinput', k=k, x=arr(x[..., None]), aux=[arr(a) for a in aux], i=[fx(z) for z in inp], t=[fx(z) for z in tgt], out=A(seen))]


def do_interp(r):
  nd = r.choice([1, 2, 2])
  h = r.choice([.5, 1.])
  shape = tuple(r.randint(4, 5) for _ in range(nd))
  g = grids.Grid(shape, step=h)
  bc = boundaries.periodic_boundary_conditions(nd)
  v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, shape, -2, 2)), o, g), bc) for o in g.cell_faces)
  net = Net(r)
  kind = r.choice(['fused', 'aniso', 'individual', 'fused'])
  tags = r.choice([(None,), ('a', 'b')]) if kind != 'individual' else (None,)
  size = r.choice([2, 3, 4] if nd == 1 else [2, 3])
  kw = {}
  if kind != 'individual' and r.random() < .4 and kind == 'fused':
    kw = dict(fuse_constraints=True, fuse_patches=r.random() < .5)
  if kind == 'individual':
    mk = lambda: interpolations.IndividualLearnedInterpolation(g, .1, None, v, stencil_size=size, tower_factory=net)
  else:
    cls = interpolations.FusedLearnedInterpolation if kind == 'fused' else interpolations.anisotropic_learned_interpolation
    if kind == 'aniso':
      size = 2 if size < 2 else size
    mk = lambda: cls(g, .1, None, v, tags=tags, stencil_size=size, tower_factory=net, **kw)
  f, o = vlib.call(mk, lambda z: dict(e=''))
  k = '%s learned interpolation %dd stencil %d' % (kind, nd, size)
  if f is None:
    return [dict(op='raised', k=k, out=o)]
  ev = []
  pairs = [(u, t) for u in v for t in grids.control_volume_offsets(u)]
  logits_all = net.seen[0][1] if net.seen else None
  pos = 0
  layout = []
  for u, t in pairs:
    for tag in tags:
      sizes = (size,) * nd if kind != 'aniso' else tuple(1 if a == b else size for a, b in zip(u.offset, t))
      pc = layers.PolynomialConstraint(
          layers_util.get_stencils(sizes, tuple((b - a) % 1 for a, b in zip(u.offset, t)), (h,) * nd), (0,) * nd, FV, (h,) * nd)
      layout.append((u, t, tag, sizes, pc, pos))
      pos += pc.subspace_size
  for u, t, tag, sizes, pc, p in r.sample(layout, min(3, len(layout))):
    # any variable at the same location may be interpolated
    c = u if r.random() < .5 else grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, shape, -2, 2)), u.offset, g), bc)
    one = grids.GridVariable(grids.GridArray(jnp.ones(shape), u.offset, g), bc)
    args = (v, .1) if kind == 'individual' else (v, .1, tag)
    _, o = vlib.call(lambda: f(c, t, *args))
    lg = net.seen[-1][1] if kind == 'individual' else logits_all[..., p:p + pc.subspace_size]
    _, oc = vlib.call(lambda: pc(jnp.asarray(lg)), A)
    _, oo = vlib.call(lambda: f(one, t, *args))
    ev.append(dict(op='interp', k=k, x=field(c), to=offj(t), sizes=list(sizes), i=[fx(z) for z in u.offset], t=[fx(z) for z in t],
                   h=fx(h), c=oc, out=o, one=oo))
  u = r.choice(v)
  _, o = vlib.call(lambda: f(u, u.offset, v, .1))
  ev.append(dict(op='unchanged', k=k + ' to the same location', x=field(u), out=o))
  if kind != 'individual':
    _, o = vlib.call(lambda: f(u, (.25,) * nd, v, .1))
    ev.append(dict(op='refuse', k='no interpolator for that location', out=o, want=['KeyError']))
  return ev
