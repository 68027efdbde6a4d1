"""C16: convolutions, tilings, halo exchange, patches and towers."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, fx
import jax
import jax.numpy as jnp
import haiku as hk
from jax_cfd.base import grids, boundaries
from jax_cfd.ml import layers, layers_util, tiling, towers
from drv_c01 import P, D, N

PER = {1: layers.PeriodicConv1D, 2: layers.PeriodicConv2D, 3: layers.PeriodicConv3D}
TRA = {1: layers.PeriodicConvTranspose1D, 2: layers.PeriodicConvTranspose2D, 3: layers.PeriodicConvTranspose3D}
KINDS = ['conv', 'tile', 'patch', 'trans', 'conv', 'mirror', 'tower', 'tile', 'misc', 'patch', 'mlp', 'res']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(480 if tier == 'quick' else 6000)]


def A(x):
  return dict(arr(x), e='')


def sparse(r, shape, dens=.6):
  a = np.array([dy(r, -1, 1, 4) if r.random() < dens else 0. for _ in range(int(np.prod(shape)))])
  return a.reshape(shape)


def params_like(r, p):
  """Deterministic dyadic values for every parameter, in creation order."""
  out, seq = {}, []
  for mod, d in p.items():
    out[mod] = {k: jnp.asarray(sparse(r, v.shape), v.dtype) for k, v in d.items()}
    seq.append({k: arr(v) for k, v in out[mod].items()})
  return out, seq


def apply(r, fn, *args):
  """Initialises fn as a haiku module, replaces its parameters, applies it."""
  t = hk.without_apply_rng(hk.transform(fn))
  box = {}

  def go():
    p = t.init(jax.random.PRNGKey(0), *args)
    p, seq = params_like(r, p)
    box['p'] = seq
    return t.apply(p, *args)
  return go, box


def layout_for(r, shape, maxp=None, bad=False):
  lay = []
  for d, n in enumerate(shape):
    c = [k for k in range(1, n + 1) if n % k == 0 and (maxp is None or max(maxp[d]) <= n // k)]
    lay.append(r.choice(c) if c else 1)
  return tuple(lay)


def size(r, nd):
  return tuple(r.randint(1, {1: 9, 2: 5, 3: 3}[nd]) for _ in range(nd))


def run(spec):
  i = spec['i']
  r = rng_for(spec['seed'], 'c16', i)
  kind = KINDS[i % len(KINDS)]
  for _ in range(6):
    ev = globals()['do_' + kind](r)
    if ev:
      return ev
  return []


def dtype(r):
  return r.choice([np.float64, np.float64, np.float32])


def do_conv(r):
  nd = r.choice([1, 2, 2, 3])
  shape = tuple(r.randint(2, {1: 9, 2: 6, 3: 4}[nd]) for _ in range(nd))
  rate = r.choice([1, 1, 2, 3]) if nd < 3 else r.choice([1, 2])
  ks = tuple(r.randint(1, {1: 5, 2: 4, 3: 2}[nd]) for _ in range(nd))
  pads = []
  for k in ks:
    e = k + (rate - 1) * (k - 1)
    pads.append((e // 2, e - e // 2 - 1))
  fits = all(max(p) <= n for p, n in zip(pads, shape))
  cin, cout = r.randint(1, 2), r.randint(1, 2)
  stride = r.choice([1, 1, 1, 2]) if rate == 1 else 1
  x = jnp.asarray(dyarr(r, shape + (cin,), dtype=dtype(r)))
  tile = None
  if r.random() < .6 and fits:
    tile = layout_for(r, shape, pads)
    if stride > 1 and any((n // t) % stride for n, t in zip(shape, tile)):
      tile = (1,) * nd
  kw = dict(rate=rate, tile_layout=tile)
  if stride > 1:
    kw['stride'] = stride
  if r.random() < .3:
    mk = lambda y: towers.periodic_convolution(cout, ks, nd, **kw)(y)
  else:
    mk = lambda y: PER[nd](cout, ks, **kw)(y)
  go, box = apply(r, mk, x)
  _, o = vlib.call(go, A)
  k = 'periodic conv %dd kernel %s rate %d stride %d tiles %s' % (nd, ks, rate, stride, tile)
  if not fits:
    return [dict(op='refuse', k=k + ' wider than the domain', out=o)]
  if 'p' not in box:
    return [dict(op='raised', k=k, out=o)]
  p = box['p'][0]
  return [dict(op='conv', k=k, x=arr(x), w=p['w'], b=p['b'], rate=rate, stride=stride, out=o)]


def do_trans(r):
  nd = r.choice([1, 1, 2, 3])
  shape = tuple(r.randint(2, {1: 7, 2: 4, 3: 3}[nd]) for _ in range(nd))
  stride = r.randint(1, 3 if nd < 3 else 2)
  ks = tuple(r.randint(1, {1: 5, 2: 3, 3: 2}[nd]) for _ in range(nd))
  cin, cout = r.randint(1, 2), r.randint(1, 2)
  x = jnp.asarray(dyarr(r, shape + (cin,), dtype=dtype(r)))
  fits = all(k // stride + 1 <= n for k, n in zip(ks, shape))
  if not fits:
    return []
  if r.random() < .1:
    _, o = vlib.call(lambda: hk.transform(lambda y: TRA[nd](cout, ks, stride=stride, tile_layout=(1,) * nd)(y)).init(
        jax.random.PRNGKey(0), x), lambda z: dict(e=''))
    return [dict(op='refuse', k='tiled transpose convolution', out=o)]
  if r.random() < .1:
    _, o = vlib.call(lambda: hk.transform(lambda y: towers.periodic_transpose_convolution(cout, ks, nd, rate=2)(y)).init(
        jax.random.PRNGKey(0), x), lambda z: dict(e=''))
    return [dict(op='refuse', k='dilated transpose convolution', out=o)]
  if r.random() < .4:
    kw = r.choice([{}, dict(rate=1), dict(rate=None)])
    mk = lambda y: towers.periodic_transpose_convolution(cout, ks, nd, stride=stride, **kw)(y)
  else:
    mk = lambda y: TRA[nd](cout, ks, stride=stride)(y)
  go, box = apply(r, mk, x)
  _, o = vlib.call(go, A)
  k = 'transpose conv %dd kernel %s stride %d' % (nd, ks, stride)
  if 'p' not in box:
    return [dict(op='raised', k=k, out=o)]
  p = box['p'][0]
  return [dict(op='trans', k=k, x=arr(x), w=p['w'], b=p['b'], stride=stride, out=o)]


def do_mirror(r):
  shape = tuple(r.randint(2, 5) for _ in range(2))
  rate = r.choice([1, 1, 2])
  ks = tuple(r.choice([1, 2, 3, 3]) for _ in range(2))
  if any((k + (rate - 1) * (k - 1)) // 2 >= n - 1 for k, n in zip(ks, shape)):
    return []
  nc = r.randint(1, 2)
  g = grids.Grid(shape, domain=tuple((0., n * h) for n, h in zip(shape, [r.choice([.5, 1.]) for _ in shape])))
  us = []
  for _ in range(nc):
    ts, vs, off = [], [], []
    for _ in range(2):
      t = r.choice([(P, P), (D, D), (N, N), (D, N), (N, D)])
      ts.append(t)
      vs.append((None, None) if t[0] == P else (dy(r), dy(r)))
      off.append(r.choice([.5, 1.]) if t in ((P, P), (D, D)) else .5)
    bc = boundaries.ConstantBoundaryConditions(ts, vs)
    us.append(bc.impose_bc(grids.GridArray(jnp.asarray(dyarr(r, shape)), tuple(off), g)))
  us = tuple(us)
  if r.random() < .5:
    mk = lambda v: layers.MirrorConv2D(nc, ks, rate=rate)(v)
  else:
    mk = lambda v: towers.mirror_convolution(nc, ks, 2, rate=rate)(v)
  go, box = apply(r, mk, us)
  outs, o = vlib.call(go, lambda z: dict(e=''))
  k = 'mirror conv kernel %s rate %d' % (ks, rate)
  if 'p' not in box:
    return [dict(op='raised', k=k, out=o)]
  p = box['p'][0]
  return [dict(op='mirror', k=k, xs=[field(u) for u in us], w=p['w'], b=p['b'], rate=rate, out=o,
               outs=[field(u) for u in outs] if outs is not None else [])]


def do_tile(r):
  nd = r.choice([1, 2, 2, 3])
  shape = tuple(r.randint(1, {1: 12, 2: 6, 3: 4}[nd]) for _ in range(nd))
  c = r.randint(1, 2)
  x = jnp.asarray(dyarr(r, shape + (c,), dtype=dtype(r)))
  lay = layout_for(r, shape)
  ev = [dict(op='field', k='field %dd' % nd, x=arr(x))]
  if r.random() < .2:
    bad = tuple(k + r.choice([0, 1]) for k in lay)
    _, o = vlib.call(lambda: tiling.space_to_batch(x, bad), A)
    if any(n % b for n, b in zip(shape, bad)):
      return ev + [dict(op='refuse', k='layout %s does not divide %s' % (bad, shape), out=o)]
    lay = bad
  t, o = vlib.call(lambda: tiling.space_to_batch(x, lay), A)
  ev.append(dict(op='to_batch', k='layout %s of %s' % (lay, shape), lay=list(lay), out=o))
  if t is None:
    return ev
  ts = [n // k for n, k in zip(shape, lay)]
  if r.random() < .7:
    m = r.random() < .25
    pad = tuple((r.randint(0, s + (1 if m else 0)), r.randint(0, s + (1 if m else 0))) for s in ts)
    pad = tuple(tuple(min(a, 3) for a in p) for p in pad)
    arg = r.choice([pad, [list(p) for p in pad]])
    h, o = vlib.call(lambda: tiling.halo_exchange_pad(t, lay, arg), A)
    ev.append(dict(op='halo', k='halo %s layout %s of %s' % (pad, lay, shape), lay=list(lay), pad=[list(p) for p in pad], out=o))
    if h is None:
      return ev
    if r.random() < .25:
      wrong = tuple(l for l in lay)[:-1] if nd > 1 else (lay[0] + 1,)
      _, o = vlib.call(lambda: tiling.halo_exchange_pad(t, wrong, pad[:len(wrong)]), A)
      ev.append(dict(op='refuse', k='layout %s for tiles of %s' % (wrong, lay), out=o))
    # crop back to the tile with a plain slice, then continue
    t = h[(slice(None),) + tuple(slice(p[0], p[0] + s) for p, s in zip(pad, ts))]
    ev.append(dict(op='crop', k='crop', lo=[p[0] for p in pad], n=ts, out=A(t)))
  y, o = vlib.call(lambda: tiling.batch_to_space(t, lay), A)
  ev.append(dict(op='to_space', k='join %s' % (lay,), lay=list(lay), out=o))
  # a user supplied valid convolution through the tiled driver
  ks = tuple(r.randint(1, 3 if nd < 3 else 2) for _ in range(nd))
  co = r.randint(1, 2)
  w = sparse(r, ks + (c, co))
  tl = None if r.random() < .2 else lay
  if all(k // 2 <= (n // (l if tl else 1)) and k - k // 2 - 1 <= (n // (l if tl else 1)) for k, n, l in zip(ks, shape, lay)):
    _, o = vlib.call(lambda: layers_util.periodic_convolution(x, jnp.asarray(w, x.dtype), tl), A)
    ev.append(dict(op='uconv', k='tiled convolution kernel %s layout %s' % (ks, tl), w=arr(w), out=o))
  return ev


def do_patch(r):
  nd = r.choice([1, 2, 2, 3])
  shape = tuple(r.randint(2, {1: 8, 2: 5, 3: 3}[nd]) for _ in range(nd))
  x = jnp.asarray(dyarr(r, shape + (1,), dtype=dtype(r)))
  ev = []
  for _ in range(2):
    ps = tuple(r.randint(1, {1: 6, 2: 4, 3: 2}[nd]) for _ in range(nd))
    if any(p // 2 > n for p, n in zip(ps, shape)):
      continue
    pads = [(p - p // 2 - 1, p // 2) for p in ps]
    m = r.choice(['roll', 'conv', 'conv', 'fused', 'method'])
    if m == 'method':
      _, o = vlib.call(lambda: layers_util.extract_patches(x, ps, 'other'), A)
      ev.append(dict(op='refuse', k='unknown patch method', out=o))
      continue
    if m == 'roll':
      _, o = vlib.call(lambda: layers_util.extract_patches(x, ps, 'roll'), A)
      ev.append(dict(op='patch', k='roll patches %s' % (ps,), x=arr(x), ps=list(ps), n=1, out=o))
      continue
    if any(max(p) > n for p, n in zip(pads, shape)):
      continue
    lay = r.choice([None, layout_for(r, shape, pads)])
    if m == 'conv':
      _, o = vlib.call(lambda: layers_util.extract_patches(x, ps, 'conv', lay), A)
      ev.append(dict(op='patch', k='conv patches %s tiles %s' % (ps, lay), x=arr(x), ps=list(ps), n=1, out=o))
    else:
      n = r.randint(1, 3)
      _, o = vlib.call(lambda: layers_util.fused_extract_patches(x, [ps] * n, lay), A)
      ev.append(dict(op='patch', k='fused patches %s' % (ps,), x=arr(x), ps=list(ps), n=n, out=o))
  return ev


def do_misc(r):
  ev = []
  # valid (non periodic) convolution
  n, cin, cout = r.randint(4, 9), r.randint(1, 2), r.randint(1, 2)
  k, rate = r.randint(1, 3), r.choice([1, 2])
  if k + (rate - 1) * (k - 1) <= n:
    x = jnp.asarray(dyarr(r, (n, cin)))
    go, box = apply(r, lambda y: layers.NonPeriodicConv1D(cout, (k,), rate=rate)(y), x)
    _, o = vlib.call(go, A)
    if 'p' in box:
      p = box['p'][0]
      ev.append(dict(op='valid', k='valid conv kernel %d rate %d' % (k, rate), x=arr(x), w=p['w'], b=p['b'], rate=rate, stride=1, out=o))
    else:
      ev.append(dict(op='raised', k='valid conv', out=o))
  # rescaling
  nd = r.choice([1, 2])
  shape = tuple(r.randint(2, 4) for _ in range(nd)) + (r.randint(1, 3),)
  x = np.array(dyarr(r, shape))
  x[(0,) * nd], x[(1,) * nd] = -2., 2. + dy(r, 0, 2)      # never constant
  lo = dy(r, -2, 2)
  hi = lo + r.choice([.5, 1., 2., 4.])
  fn = layers.rescale_to_range if r.random() < .5 else None
  axes = tuple(range(nd))
  _, o = vlib.call(lambda: layers.rescale_to_range(jnp.asarray(x), lo, hi, axes) if fn else
                   towers.scale_to_range(jnp.asarray(x), axes, min_value=lo, max_value=hi), A)
  ev.append(dict(op='rescale', k='rescale to [%s, %s]' % (lo, hi), x=arr(x), lo=fx(lo), hi=fx(hi), out=o))
  c = dy(r)
  _, o = vlib.call(lambda: towers.fixed_scale(jnp.asarray(x), axes, rescaled_one=c), A)
  ev.append(dict(op='scale', k='fixed scale', x=arr(x), c=fx(c), out=o))
  g = grids.Grid((4, 3), step=1.)
  t = r.choice([(P, P), (D, D), (N, N)])
  off = (r.choice([.5, 1.]) if t != (N, N) else .5, .5)
  bc = boundaries.ConstantBoundaryConditions((t, t), [(None, None) if t[0] == P else (dy(r), dy(r)) for _ in range(2)])
  u = bc.impose_bc(grids.GridArray(jnp.asarray(dyarr(r, (4, 3))), off, g))
  outs, o = vlib.call(lambda: towers.fixed_scale_gridvar((u,), axes, rescaled_one=c), lambda z: dict(e=''))
  ev.append(dict(op='scalevar', k='fixed scale of variables', x=field(u), c=fx(c), out=o, outs=[field(z) for z in outs] if outs else []))
  return ev


def do_tower(r):
  nd = r.choice([1, 1, 2])
  shape = tuple(r.randint(3, {1: 7, 2: 4}[nd]) for _ in range(nd))
  cin, cout = r.randint(1, 2), r.randint(1, 2)
  x = jnp.asarray(dyarr(r, shape + (cin,), -1, 1))
  nl = r.randint(0, 2)
  hid = r.randint(1, 2)
  ki, ko = r.randint(1, 3), r.randint(1, 3)
  rates = r.choice([1, tuple(r.choice([1, 2]) for _ in range(nl))])
  orate = r.choice([1, 1, 2])
  c1, c2 = r.choice([(.5, 2.), (1., .25), (2., 1.)])
  if any((k + (q - 1) * (k - 1)) // 2 > min(shape) for k, q in [(ki, 2), (ko, orate)]):
    return []
  scale_in = lambda y, axes: y * c1
  scale_out = lambda y, axes: y * c2
  if r.random() < .6:
    mk = lambda y: towers.forward_tower_factory(
        cout, nd, num_hidden_channels=hid, kernel_size=ki, num_hidden_layers=nl, rates=rates,
        output_kernel_size=ko, output_dilation_rate=orate, inputs_scale_fn=scale_in, output_scale_fn=scale_out)(y)
  else:
    mk = lambda y: towers.forward_flex_tower_factory(
        cout, nd, channels=(hid,) * nl, kernel_shapes=((ki,) * nd,) * nl, rates=rates, strides=1,
        output_kernel_shape=(ko,) * nd, output_rate=orate, inputs_scale_fn=scale_in, output_scale_fn=scale_out)(y)
  go, box = apply(r, mk, x)
  _, o = vlib.call(go, A)
  if 'p' not in box:
    return [dict(op='raised', k='tower', out=o)]
  rs = list(rates) if not isinstance(rates, int) else [rates] * nl
  ev = [dict(op='tower', k='tower %dd %d hidden' % (nd, nl), x=arr(x), ps=box['p'], rates=rs + [orate],
             ci=fx(c1), co=fx(c2), out=o)]
  if r.random() < .3:
    _, o = vlib.call(lambda: hk.transform(lambda y: towers.forward_flex_tower_factory(
        cout, nd, channels=(1, 1), kernel_shapes=((1,) * nd,), rates=(1, 1), strides=(1, 1))(y)).init(jax.random.PRNGKey(0), x),
                     lambda z: dict(e=''))
    ev.append(dict(op='refuse', k='tower with conflicting lengths', out=o))
  return ev


def do_mlp(r):
  nd = r.choice([1, 2])
  shape = tuple(r.randint(2, 4) for _ in range(nd))
  cin, cout, hid, nl = r.randint(1, 2), r.randint(1, 2), r.randint(1, 3), r.randint(0, 2)
  x = jnp.asarray(dyarr(r, shape + (cin,), -1, 1))
  c1, c2 = r.choice([(.5, 2.), (1., .25), (2., 1.)])
  go, box = apply(r, lambda y: towers.MlpTowerFactory(
      cout, nd, hid, nl, inputs_scale_fn=lambda z, axes: z * c1, output_scale_fn=lambda z, axes: z * c2)(y), x)
  _, o = vlib.call(go, A)
  if 'p' not in box:
    return [dict(op='raised', k='mlp', out=o)]
  ps = [dict(p, w=dict(p['w'], s=[1] * nd + p['w']['s'])) for p in box['p']]
  return [dict(op='tower', k='mlp tower %dd %d hidden' % (nd, nl), x=arr(x), ps=ps, rates=[1] * len(ps), ci=fx(c1), co=fx(c2), out=o)]


def do_res(r):
  nd = 1
  x = jnp.asarray(dyarr(r, (r.randint(3, 6), r.randint(1, 2)), -1, 1))
  nb = r.randint(1, 3)
  cout = r.randint(1, 2)
  block = lambda c, d: PER[d](c, (3,))
  skip = r.choice([None, .5])
  kw = {} if skip is None else dict(skip_connection_fn=lambda z, block_num: z * skip)
  if r.random() < .7:
    mk = lambda y: towers.residual_block_tower_factory(cout, nd, num_blocks=nb, block_factory=block,
        inputs_scale_fn=lambda z, axes: z * 2., output_scale_fn=lambda z, axes: z * .5, **kw)(y)
    kind = 'residual'
  else:
    kind = 'connection'
    c = x.shape[-1]
    mk = lambda y: towers.residual_connection(c, (3,), module_factory=PER[1])(y)
  go, box = apply(r, mk, x)
  _, o = vlib.call(go, A)
  if 'p' not in box:
    return [dict(op='raised', k='residual tower', out=o)]
  return [dict(op=kind, k='%s tower %d blocks' % (kind, nb), x=arr(x), ps=box['p'], skip=fx(1. if skip is None else skip),
               ci=fx(2.), co=fx(.5), out=o)]
