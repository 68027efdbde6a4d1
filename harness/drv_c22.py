"""C22: stored flows and what is derived from them."""
import math
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx, gridj, offj
import jax.numpy as jnp
import pandas  # noqa
import xarray
from jax_cfd.base import grids, boundaries as bd
from jax_cfd.data import visualization as viz, xarray_utils as xu, evaluation as ev_
import io
import matplotlib as mpl
from PIL import Image

try:
  import dask  # noqa
except ImportError:   # chunking is only a storage layout
  xarray.Dataset.chunk = lambda self, *a, **k: self

KINDS = ['traj', 'diag', 'spectrum', 'shells', 'rings', 'isospec', 'corr', 'norm', 'pair', 'metric', 'time', 'summary', 'grid', 'diag', 'spectrum', 'pictures']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(320 if tier == 'quick' else 5000)]


def run(spec):
  r = rng_for(spec['seed'], 'c22', spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r)


def grid_of(r, nd=None, lo=2, hi=6):
  nd = nd or r.choice([1, 2, 2, 2, 3])
  shape = tuple(r.randint(lo, 3 if nd == 3 else (9 if nd == 1 else hi)) for _ in range(nd))
  dom = []
  for _ in range(nd):
    a = r.choice([0., 0., -1.])
    dom.append((a, a + r.choice([1., 2., 3., 4., 2 * math.pi])))
  return grids.Grid(shape, domain=tuple(dom))


def values(r, shape, m=1):
  return dyarr(r, shape, -m, m, 8)


def dataset(r, g, S, T, m=1, times=None):
  tr = tuple(values(r, (S, T) + g.shape, m) for _ in range(g.ndim))
  ds = xu.velocity_trajectory_to_xarray(tr, g, time=np.arange(T) * .5 if times is None else times, attrs=dict(ndim=g.ndim), samples=True)
  if r.random() < .5:
    dims = list(ds.u.dims)
    r.shuffle(dims)
    ds = ds.transpose(*dims)
  return ds, tr


def slices(tr):
  """One list of component arrays per sample and time."""
  S, T = tr[0].shape[:2]
  return [[arr(c[s, t]) for c in tr] for s in range(S) for t in range(T)]


def flat(da, dims):
  a = np.asarray(da.transpose('sample', 'time', *dims).values)
  return [arr(a[s, t]) for s in range(a.shape[0]) for t in range(a.shape[1])]


def SP(nd):
  return ('x', 'y', 'z')[:nd]


def KP(nd):
  return ('kx', 'ky', 'kz')[:nd]


def ok(x):
  return dict(e='')


def do_traj(r):
  g = grid_of(r)
  nd = g.ndim
  samples = r.random() < .5
  with_grid = r.random() < .8
  ns = 1 if with_grid and r.random() < .4 else 0
  lead = ((r.randint(1, 3),) if samples else ()) + (r.randint(1, 3),)
  raw = [values(r, lead + g.shape) for _ in range(nd + ns)]
  kind = r.choice(['array', 'garray', 'gvar'])
  soff = []
  tr = []
  for k, a in enumerate(raw):
    # a scalar keeps the place it is stored at, wherever that is
    o = tuple(r.choice([0., .5, 1.]) for _ in range(nd)) if k < ns else g.cell_faces[k - ns]
    if kind == 'array':
      tr.append(a if r.random() < .5 else jnp.asarray(a))
    else:
      u = grids.GridArray(jnp.asarray(a), o, g)
      if kind == 'gvar':
        u = grids.GridArray(jnp.asarray(a), o, g) if lead else u
      tr.append(u)
      if k < ns:
        soff = offj(o)
  times = np.arange(lead[-1]) * dy(r, .25, 2) if r.random() < .7 else None
  prefix = r.choice(['', '', 'pred_'])
  attrs = dict(ndim=nd, seed=r.randint(0, 9)) if r.random() < .7 else None
  def call():
    kw = {}
    if with_grid:
      kw['grid'] = g
    if times is not None:
      kw['time'] = times
    if attrs is not None:
      kw['attrs'] = attrs
    if samples:
      kw['samples'] = True
    if prefix:
      kw['prefix_name'] = prefix
    return xu.velocity_trajectory_to_xarray(tuple(tr), **kw)
  ds, out = vlib.call(call, ok)
  e = dict(op='traj', k='dataset of %s' % kind, nd=nd, ns=ns, prefix=prefix, samples=samples, grid=with_grid, g=gridj(g), out=out,
           a=[arr(x) for x in raw], soff=soff, times=[fx(t) for t in times] if times is not None else [],
           attrs={k: int(v) for k, v in (attrs or {}).items()} or dict(none=0))
  if ds is not None:
    names = list(ds.data_vars)
    e.update(names=names, dims=[list(ds[n].dims) for n in names], data=[arr(ds[n].values) for n in names],
             off=[offj(ds[n].attrs['offset']) if 'offset' in ds[n].attrs else [] for n in names],
             axes=[[fx(z) for z in ds.coords[d].values] for d in SP(nd) if d in ds.coords],
             gottimes=[fx(t) for t in ds.coords['time'].values] if 'time' in ds.coords else [],
             ids=[int(z) for z in ds.coords['sample'].values] if 'sample' in ds.coords else [],
             gotattrs={k: int(v) for k, v in ds.attrs.items()} or dict(none=0))
  return [e]


def do_diag(r):
  g = grid_of(r, r.choice([1, 2, 2, 2, 3]))
  nd = g.ndim
  ds, tr = dataset(r, g, r.randint(1, 2), r.randint(1, 3), 4 if min(g.step) >= .25 else 2)
  w = slices(tr)
  evs = []
  fns = [('speed', xu.speed), ('kinetic_energy', xu.kinetic_energy)]
  if nd == 2:
    fns += [('vorticity', xu.vorticity_2d), ('enstrophy', xu.enstrophy_2d)]
  tol = int(256 + 256 / min(g.step) ** 2) * (8 if nd == 2 else 1)
  for name, fn in fns:
    z, out = vlib.call(lambda: fn(ds), ok)
    evs.append(dict(op='diag', k='%s in %s dimensions' % (name, nd), want=name, name=z.name if z is not None else '', g=gridj(g), w=w, out=out,
                    tol=tol if name in ('vorticity', 'enstrophy') else 128, got=flat(z, SP(nd)) if z is not None else []))
  if r.random() < .5:
    c = r.randint(1, 3)
    cs = [values(r, (3,), 2) + (1j * values(r, (3,), 2) if r.random() < .7 else 0) for _ in range(c)]
    z, out = vlib.call(lambda: xu.magnitude(*[xarray.DataArray(x, dims='x') for x in cs]), lambda z: dict(e=''))
    evs.append(dict(op='mag', k='magnitude', re=[arr(np.real(x)) for x in cs], im=[arr(np.imag(x)) for x in cs], out=out,
                    got=arr(z.values) if z is not None else arr(np.zeros(1)), tol=128))
  return evs


def lengths(g):
  return [fx(b - a) for a, b in g.domain]


def do_spectrum(r):
  g = grid_of(r)
  nd = g.ndim
  ds, tr = dataset(r, g, r.randint(1, 2), r.randint(1, 2))
  z, out = vlib.call(lambda: xu.energy_spectrum(ds), ok)
  N = int(np.prod(g.shape))
  e = dict(op='spectrum', k='spectrum in %s dimensions' % nd, g=gridj(g), w=slices(tr), out=out, tol=int(128 * N + 8 * N * N))
  if z is not None:
    e.update(got=flat(z, KP(nd)), kaxes=[[fx(q) for q in z.coords[k].values] for k in KP(nd)])
  return [e]


def waves(g):
  """Coordinates of a spectrum in ascending order, named kx, ky, kz."""
  return {k: np.fft.fftshift(2 * np.pi * np.fft.fftfreq(n, h)) for k, n, h in zip(KP(g.ndim), g.shape, g.step)}


def iso_grid(r, nd, lo=3):
  hi = 4 if nd == 3 else (12 if nd == 1 else 9)
  shape = tuple(r.randint(lo, hi) for _ in range(nd))
  L = r.choice([1., 2., 2 * math.pi])
  Ls = [L] * nd if r.random() < .6 else [L * r.choice([1., 1., 1.5, 2., .5]) for _ in range(nd)]
  return grids.Grid(shape, domain=tuple((0., x) for x in Ls))


def do_shells(r):
  nd = r.choice([1, 2, 2, 3])
  g = iso_grid(r, nd)
  Q = r.choice([1, 1, 2])
  E = np.abs(values(r, (Q,) + g.shape, 4))
  da = xarray.DataArray(E, coords=waves(g), dims=('sample',) + KP(nd), name='E')
  if r.random() < .4:
    dims = list(da.dims); r.shuffle(dims); da = da.transpose(*dims)
  kw = {} if nd != 2 and r.random() < .5 else dict(method='binsum')
  z, out = vlib.call(lambda: xu.isotropize(da, **kw), ok)
  e = dict(op='shells', k='shell sums in %s dimensions' % nd, n=list(g.shape), L=lengths(g), E=[arr(x) for x in E], out=out, tol=64 * int(np.prod(g.shape)))
  if z is not None:
    e.update(labels=[fx(q) for q in z.coords['k'].values], got=[[fx(q) for q in row] for row in z.transpose('sample', 'k').values])
  return [e]


def do_rings(r):
  if r.random() < .08:
    which = r.choice(['nodims', 'method', 'ndim'])
    da = dict(nodims=xarray.DataArray(np.ones(3), dims='x'), method=xarray.DataArray(np.ones(4), dims='kx', coords=dict(kx=np.arange(4.))),
              ndim=xarray.DataArray(np.ones(4), dims='kx', coords=dict(kx=np.arange(4.))))[which]
    _, out = vlib.call(lambda: xu.isotropize(da, method=dict(nodims=None, method='average', ndim='interpolation')[which]), ok)
    return [dict(op='refuse', k=which, out=out, want='ValueError')]
  g = iso_grid(r, 2, 4)
  lg = np.abs(values(r, g.shape, 2))
  da = xarray.DataArray(np.exp(-lg), coords=waves(g), dims=('kx', 'ky'), name='E')
  if r.random() < .4:
    da = da.transpose('ky', 'kx')
  nq = r.choice([4, 5, 8, 12, 12, 100]) if max(g.shape) < 6 else r.choice([4, 8, 12])
  kw = {} if r.random() < .5 else dict(method='interpolation')
  if nq != 100 or r.random() < .5:
    kw['num_quadrature_points'] = nq
  z, out = vlib.call(lambda: xu.isotropize(da, **kw), ok)
  e = dict(op='rings', k='ring means', n=list(g.shape), L=lengths(g), lg=arr(lg), nq=nq, out=out, tol=16384)
  if z is not None:
    e.update(labels=[fx(q) for q in z.coords['k'].values], got=[fx(q) for q in z.values])
  return [e]


def do_isospec(r):
  nd = r.choice([1, 2, 3])
  g = iso_grid(r, nd)
  if nd == 3:
    g = grids.Grid(tuple(min(n, 3) for n in g.shape), domain=g.domain)
  S, T = r.randint(1, 2), r.randint(1, 2)
  if nd == 2:
    g = grids.Grid((r.randint(6, 8), r.randint(6, 8)), domain=[g.domain[0]] * 2)
  ds, tr = dataset(r, g, S, T)
  if nd == 2:
    ds = ds + .01
    def both():
      dims = r.choice([('sample',), ('sample', 'time')])
      a = xu.isotropic_energy_spectrum(ds, dims)
      b = xu.isotropize(xu.energy_spectrum(ds).mean(dims))
      return a.transpose(*b.dims).values, b.values
    z, out = vlib.call(both, ok)
    return [dict(op='equal', k='isotropic spectrum of a flow', a=arr(z[0]) if z else arr(np.zeros(1)), b=arr(z[1]) if z else arr(np.zeros(1)), out=out, tol=64)]
  dims = r.choice([('sample', 'time'), ('sample',)])
  z, out = vlib.call(lambda: xu.isotropic_energy_spectrum(ds, dims), ok)
  evs = []
  for t in ([None] if dims == ('sample', 'time') else range(T)):
    e = dict(op='isospec', k='isotropic spectrum of a flow', n=list(g.shape), L=lengths(g), out=out, tol=512 * int(np.prod(g.shape)),
             w=[[arr(c[s, q]) for c in tr] for s in range(S) for q in (range(T) if t is None else [t])])
    if z is not None:
      q = z if t is None else z.isel(time=t)
      e.update(labels=[fx(x) for x in z.coords['k'].values], got=[fx(x) for x in q.values])
    evs.append(e)
  return evs


def do_corr(r):
  g = grid_of(r)
  nd = g.ndim
  ds, tr = dataset(r, g, r.randint(1, 2), r.randint(1, 2), 2)
  axis = r.randrange(nd)
  z, out = vlib.call(lambda: xu.velocity_spatial_correlation(ds, SP(nd)[axis]), ok)
  evs = []
  dims = [('d' + d if k == axis else d) for k, d in enumerate(SP(nd))]
  for c in range(nd):
    name = '%s_%s_correlation' % ('uvw'[c], 'xyz'[axis])
    e = dict(op='corr', k='correlation along %s' % 'xyz'[axis], ax=axis + 1, g=gridj(g), out=out, tol=64, want=name,
             w=[sl[c] for sl in slices(tr)])
    if z is not None:
      got = list(z.data_vars)[c]
      e.update(name=got, got=flat(z[got], dims), disp=[fx(q) for q in z.coords[dims[axis]].values])
    evs.append(e)
  return evs


def do_norm(r):
  shape = tuple(r.randint(1, 3) for _ in range(3))
  a = values(r, shape, 2) * r.choice([1, 1, 8]) + .0625   # never zero
  keep = r.randrange(3)
  dims = ['x', 'y', 'sample']
  da = xarray.DataArray(a, dims=dims)
  state = [d for k, d in enumerate(dims) if k != keep]
  r.shuffle(state)
  z, out = vlib.call(lambda: xu.normalize(da, tuple(state)), ok)
  pick = lambda q: [np.take(q, j, keep).ravel() for j in range(shape[keep])]
  return [dict(op='norm', k='normalise', v=[[fx(y) for y in row] for row in pick(a)], out=out, tol=512,
               got=[[fx(y) for y in row] for row in pick(z.transpose(*dims).values)] if z is not None else [])]


def pair(r, S, T, shape, m=2):
  p, q = values(r, (S, T) + shape, m) + .0625, values(r, (S, T) + shape, m) + .0625   # never zero
  if r.random() < .3:
    q = p * r.choice([1., 2., .5])
  a = np.stack([p, q])
  names = r.choice([('learned', 'ground_truth'), ('m1', 'm2')])
  dims = ['model', 'sample', 'time'] + list(SP(len(shape)))
  da = xarray.DataArray(a, dims=dims, coords=dict(model=list(names)), name='u')
  if r.random() < .5:
    d = list(dims); r.shuffle(d); da = da.transpose(*d)
  return p, q, da, ({} if names[0] == 'learned' else dict(eval_model_name='m1', target_model_name='m2'))


def by(a):
  return [[arr(a[s, t]) for t in range(a.shape[1])] for s in range(a.shape[0])]


def one(a):
  return [x for row in by(a) for x in row]


def do_pair(r):
  nd = r.choice([1, 2])
  shape = tuple(r.randint(2, 4) for _ in range(nd))
  S, T = r.randint(1, 3), r.randint(1, 2)
  p, q, da, kw = pair(r, S, T, shape)
  evs = []
  z, out = vlib.call(lambda: ev_.absolute_error(da, **kw), ok)
  order = ['sample', 'time'] + list(SP(nd))
  evs.append(dict(op='abserr', k='absolute error', p=one(p), q=one(q), out=out, tol=4, got=one(z.transpose(*order).values) if z is not None else []))
  z, out = vlib.call(lambda: ev_.state_correlation(da, **kw), ok)
  evs.append(dict(op='state', k='state correlation', p=by(p), q=by(q), out=out, tol=1024, got=[fx(x) for x in z.values] if z is not None else []))
  z, out = vlib.call(lambda: ev_.average(da.isel(model=0, drop=True), nd), ok)
  evs.append(dict(op='average', k='average', p=by(p), out=out, tol=64, got=[fx(x) for x in z.values] if z is not None else []))
  th = r.choice([.25, .5, 1., 2.])
  z, out = vlib.call(lambda: ev_.below_error_threshold(da, xarray.DataArray(th), **kw), ok)
  evs.append(dict(op='below', k='below threshold', p=one(p), q=one(q), th=fx(th), out=out,
                  got=one(z.transpose(*order).values.astype(float)) if z is not None else []))
  if r.random() < .3:
    _, out = vlib.call(lambda: ev_.average(da.isel(model=0, drop=True) * 1j, nd), ok)
    evs.append(dict(op='refuse', k='average of complex values', out=out, want='ValueError'))
  return evs


def do_metric(r):
  log = r.random() < .5
  S, T, n = r.randint(1, 3), r.randint(1, 2), r.randint(2, 6)
  if log:
    p, q = [np.exp(values(r, (S, T, n), 2)) for _ in range(2)]
    th, d, fn = r.choice([.25, .7, 1.3]), 'kx', ev_.energy_spectrum_metric
  else:
    p, q = [values(r, (S, T, n), 2) for _ in range(2)]
    th, d, fn = r.choice([.3, .55, 1.1]), 'dx', ev_.u_x_correlation_metric
  dims = ('sample', 'time', d)
  z, out = vlib.call(lambda: fn(th)(xarray.DataArray(p, dims=dims), xarray.DataArray(q, dims=dims)), ok)
  return [dict(op='metric', k='spectrum metric' if log else 'correlation metric', log=log, th=fx(th), p=by(p), q=by(q), out=out, tol=2048,
               got=[fx(x) for x in z.values] if z is not None else [])]


def do_time(r):
  S, T, n, M = r.randint(1, 2), r.randint(2, 7), r.randint(1, 3), r.randint(1, 2)
  dt = r.choice([.25, .5, 1., .125])
  t0 = r.choice([0., 0., dt])
  u = values(r, (T, S, n, M), 2)
  ds = xarray.Dataset(dict(u=(('time', 'sample', 'x', 'model'), u)), coords=dict(time=t0 + np.arange(T) * dt, sample=np.arange(S), x=np.arange(n) * .5, model=np.arange(M)))
  if r.random() < .5:
    d = list(ds.u.dims); r.shuffle(d); ds = ds.transpose(*d)
  z, out = vlib.call(lambda: ev_.temporal_autocorrelation(ds), ok)
  sub = max(1, int(1. / dt))
  flatu = u.reshape(T, -1)
  e = dict(op='time', k='correlation in time', u=[[fx(x) for x in flatu[:, c]] for c in range(flatu.shape[1])], sub=sub, dt=fx(dt), t0=fx(t0), out=out, tol=64)
  if z is not None:
    a = np.asarray(z.t_corr.transpose('time', 'sample', 'x', 'model').values)
    e.update(got=[[fx(x) for x in row.ravel()] for row in a], lags=[fx(x) for x in z.coords['dt'].values])
  return [e]


def do_summary(r):
  nd = r.choice([1, 2, 2])
  shape = tuple(r.randint(6, 7) for _ in range(nd))
  g = grids.Grid(shape, domain=((0., 2 * math.pi),) * nd)
  S, T = r.randint(1, 2), r.randint(2, 2)
  mk = lambda: tuple(values(r, (S, T) + shape, 2) + .03125 for _ in range(nd))
  a, b = mk(), mk()
  times = np.arange(T) * 1.
  dsof = lambda tr: xu.velocity_trajectory_to_xarray(tr, g, time=times, attrs=dict(ndim=nd), samples=True)
  qs = r.choice([(.1, 1.0), (.25, .5)])
  z, out = vlib.call(lambda: ev_.compute_summary_dataset(dsof(a), dsof(b), quantile_thresholds=qs), ok)
  names = list('uvw'[:nd])
  e = dict(op='summary', k='summary in %s dimensions' % nd, names=names, p=[by(c) for c in a], q=[by(c) for c in b], qs=[fx(q) for q in qs], out=out, tol=64, ctol=1024)
  if z is not None:
    row = lambda nm: [fx(x) for x in z[nm].transpose('time').values]
    e.update(mean=[row(n + '_mean') for n in names], error=[row(n + '_error') for n in names],
             corr=[row(n + '_correlation') for n in names],
             within=[[row('%s_within_q=%s' % (n, q)) for q in qs] for n in names])
  return [e]


def do_grid(r):
  kind = r.choice(['size', 'size', 'multiple', 'rect', 'none'])
  nd = r.choice([1, 2, 3])
  n = r.randint(2, 12)
  if kind == 'size':
    L = r.choice([1., 2., 2 * math.pi])
    attrs = dict(ndim=nd, save_grid_size=n, domain_size=L)
    a = dict(kind='square', nd=nd, n=[n], L=fx(L))
    if r.random() < .3:
      attrs['domain_size_multiple'] = 3
  elif kind == 'multiple':
    m = r.choice([1, 2, .5])
    attrs = dict(ndim=nd, save_grid_size=n, domain_size_multiple=m)
    a = dict(kind='square', nd=nd, n=[n], L=fx(2 * math.pi * m))
  elif kind == 'rect':
    nd = 2
    m = n + r.randint(1, 3)
    ar = r.choice([2., 1.5, .5])
    attrs = dict(ndim=2, save_grid_size_x=n, save_grid_size_y=m, aspect_ratio=ar)
    a = dict(kind='rect', nd=2, n=[n, m], L=fx(ar))
  else:
    _, out = vlib.call(lambda: xu.grid_from_attrs(dict(ndim=nd, save_grid_size=n)), ok)
    return [dict(op='refuse', k='no domain size', out=out, want='ValueError')]
  z, out = vlib.call(lambda: xu.grid_from_attrs(attrs), ok)
  return [dict(op='grid', k='grid from attributes', a=a, out=out, g=gridj(z) if z is not None else {})]


def rgb(im):
  a = np.asarray(im.convert('RGB')).astype(int)
  return dict(w=im.size[0], h=im.size[1], v=[int(x) for x in (a[..., 0] * 65536 + a[..., 1] * 256 + a[..., 2]).ravel()])


def shade(im):
  """Position on the colour scale of every pixel; -1 where the colour is not on the scale."""
  a = np.asarray(im.convert('RGB')).astype(int)
  ok = (a[..., 1] == 7) & (a[..., 2] == 255 - a[..., 0])
  return dict(w=im.size[0], h=im.size[1], v=[int(x) for x in np.where(ok, a[..., 0], -1).ravel()])


def do_pictures(r):
  T, h, w = r.randint(1, 3), r.randint(1, 5), r.randint(1, 5)
  x = np.stack([values(r, (h, w)) for _ in range(T)])
  x[:, r.randrange(h), r.randrange(w)] = r.choice([.5, 1., -1.])
  scale = mpl.colors.ListedColormap([(min(1, (i + .3) / 255), 7.3 / 255, min(1, (255.3 - i) / 255)) for i in range(256)])
  longest = r.choice([None, None, 2, 3, 7, 10])
  if longest and min(h, w) * longest < .6 * max(h, w):     # nothing left of the short side
    longest = None
  lo, hi, kw = [], [], {}
  if longest:
    kw['longest_side'] = longest
  if r.random() < .4:
    lim = [(dy(r, -2, 0) - .25, dy(r, 0, 2) + .25) for _ in range(T)]
    lo, hi = [fx(a) for a, _ in lim], [fx(b) for _, b in lim]
    kw['compute_norm_fn'] = lambda data, n: mpl.colors.Normalize(vmin=lim[n][0], vmax=lim[n][1])
  ims, out = vlib.call(lambda: viz.trajectory_to_images(x if r.random() < .5 else jnp.asarray(x), cmap=scale, **kw), lambda z: dict(e=''))
  ev = [dict(op='frames', k='%d pictures %dx%d longest %s' % (T, h, w, longest), x=arr(x), lo=lo, hi=hi, longest=longest or 0, out=out,
             outs=[shade(i) for i in ims or []])]
  rand = lambda w, h: Image.fromarray(np.frombuffer(bytes(r.randrange(256) for _ in range(w * h * 3)), np.uint8).reshape(h, w, 3), 'RGB')
  k, w, h = r.randint(1, 3), r.randint(1, 5), r.randint(1, 4)
  ps = [[rand(w, h) for _ in range(r.choice([T, T, 1, 3]))] for _ in range(k)]
  frac = r.choice([0., .25, .4, .5, 1.])
  strip = tuple(r.randrange(256) for _ in range(3))
  white = r.random() < .3
  fs, out = vlib.call(lambda: viz.horizontal_facet(ps, frac, **({} if white else dict(separation_rgb=strip))), lambda z: dict(e=''))
  if white:
    strip = (255, 255, 255)
  ev.append(dict(op='facet', k='facet of %d' % k, ps=[[rgb(i) for i in p] for p in ps], width=fx(frac), strip=strip[0] * 65536 + strip[1] * 256 + strip[2], out=out,
                 outs=[rgb(i) for i in fs or []]))
  n = r.randint(2, 4)
  fr = [rand(3, 2) for _ in range(n)]
  kw, dur, loop = {}, 150, 0
  if r.random() < .6:
    kw['duration'] = dur = r.choice([40, 80, 200])
  if r.random() < .6:
    kw['loop'] = loop = r.choice([1, 3])
  def movie():
    b = io.BytesIO()
    viz.save_movie(fr, b, format='PNG', **kw)
    b.seek(0)
    m = Image.open(b)
    got, times = [], []
    for j in range(m.n_frames):
      m.seek(j)
      got.append(rgb(m)); times.append(int(round(m.info['duration'])))
    return got, times, int(m.info.get('loop', -1))
  res, out = vlib.call(movie, lambda z: dict(e=''))
  got, times, gl = res if res is not None else ([], [], -1)
  ev.append(dict(op='movie', k='movie of %d frames' % n, ps=[rgb(i) for i in fr], outs=got, times=times, duration=dur, gotloop=gl, loop=loop, out=out))
  return ev
