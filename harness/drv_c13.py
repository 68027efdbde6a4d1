"""C13: coarse-graining."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, fx, gridj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, resize
from drv_c01 import P, D, N
from drv_c05 import key_of


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(360 if tier == 'quick' else 5000)]


def mk(shape, steps, lo):
  return grids.Grid(shape, domain=tuple((l, l + n * h) for n, h, l in zip(shape, steps, lo)))


def bc_for(r, nd, homog=False):
  ts, vs = [], []
  for _ in range(nd):
    t = r.choice([(P, P), (P, P), (D, D), (N, N), (D, N)])
    ts.append(t)
    vs.append((0., 0.) if homog or t[0] == P else (dy(r), dy(r)))
  return boundaries.ConstantBoundaryConditions(ts, vs)


def run(spec):
  i = spec['i']
  r = rng_for(spec['seed'], 'c13', i)
  kind = ['stag', 'tophat', 'spectral', 'tophat', 'stag', 'comp'][i % 6]
  ev = []
  jit = r.random() < .15
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  if kind in ('stag', 'comp'):
    nd = r.choice([1, 2, 2, 2, 3])
    fac = r.choice([1, 2, 2, 3, 4]) if nd < 3 else r.choice([2, 2, 3])
    coarse = tuple(r.randint(1, 3 if nd < 3 else 2) for _ in range(nd))
    shape = tuple(n * fac for n in coarse)
    dtype = r.choice([np.float64, np.float32])
    if kind == 'comp':
      d = r.randrange(nd)
      if r.random() < .2:
        shape = list(shape)
        ax = r.randrange(nd)
        shape[ax] += 1
        shape = tuple(shape)
        a = jnp.asarray(dyarr(r, shape, dtype=dtype))
        _, o = vlib.call(lambda: resize.downsample_staggered_velocity_component(a, d, fac), arr)
        if ax != d and fac > 1:
          return [dict(op='refuse', k='component size not divisible', out=o)]
        return []
      a = jnp.asarray(dyarr(r, shape, dtype=dtype))
      _, o = vlib.call(lambda: J(lambda x: resize.downsample_staggered_velocity_component(x, d, fac))(a),
                       lambda x: dict(arr(x), e=''))
      return [dict(op='comp', k='component %dd f%d' % (nd, fac), a=arr(a), dir=d + 1, fac=fac, out=o)]
    steps = [r.choice([.25, .5, 1.]) for _ in range(nd)]
    lo = [r.choice([0., 0., -1.]) for _ in range(nd)]
    src = mk(shape, steps, lo)
    dst = mk(coarse, [h * fac for h in steps], lo)
    bc = boundaries.periodic_boundary_conditions(nd) if r.random() < .6 else bc_for(r, nd, r.random() < .4)
    data = [dyarr(r, shape, dtype=dtype) for _ in range(nd)]
    if nd > 1 and r.random() < .5:   # solenoidal
      psi = dyarr(r, shape, -1, 1)
      data = [np.zeros(shape) for _ in range(nd)]
      data[0] = (psi - np.roll(psi, 1, 1)) / src.step[1] * src.step[0] * src.step[1]
      data[1] = -(psi - np.roll(psi, 1, 0)) / src.step[0] * src.step[0] * src.step[1]
      data = [np.asarray(a, dtype) for a in data]
    v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(a), o, src), bc) for a, o in zip(data, src.cell_faces))
    as_ = r.choice(['raw', 'array', 'var', 'var'])
    arg = dict(raw=tuple(u.data for u in v), array=tuple(u.array for u in v), var=v)[as_]
    if as_ == 'raw' and r.random() < .5:
      arg = tuple(np.asarray(a) for a in arg)
    outs, o = vlib.call(lambda: J(lambda x: resize.downsample_staggered_velocity(src, dst, x))(arg), lambda x: dict(e=''))
    pj = arr if as_ == 'raw' else field
    oj = []
    if outs is not None:
      oj = [dict(pj(u), e='') for u in outs]
    div = bool(as_ == 'var' and outs is not None and nd > 1 and all(t[0] == P for t in bc.types))
    ev.append(dict(op='stag', k='staggered %s %dd f%d' % (as_, nd, fac), v=[field(u) for u in v], fac=fac, g=gridj(dst),
                   out=o, outs=oj, div=div, **{'as': as_}))
    f2 = [f for f in (2,) if all(n % f == 0 for n in coarse)]
    if f2 and outs is not None and as_ == 'raw':
      d2 = mk(tuple(n // 2 for n in coarse), [h * fac * 2 for h in steps], lo)
      two = resize.downsample_staggered_velocity(dst, d2, outs)
      one = resize.downsample_staggered_velocity(src, d2, arg)
      for a, b in zip(two, one):
        ev.append(dict(op='chain', k='two steps equal one', out=dict(arr(a), e=''), one=arr(b)))
    c = r.random()
    if c < .15:
      bad = grids.Grid(shape, domain=tuple((l + 1, h + 1) for l, h in src.domain))
      if as_ != 'raw':
        _, o = vlib.call(lambda: resize.downsample_staggered_velocity(bad, mk(coarse, [h * fac for h in steps], [x + 1 for x in lo]), arg), lambda x: dict(e=''))
        ev.append(dict(op='refuse', k='staggered: field on another grid', out=o))
    elif c < .3:
      other = grids.Grid(coarse, domain=tuple((l, h + 1) for l, h in src.domain))
      _, o = vlib.call(lambda: resize.downsample_staggered_velocity(src, other, arg), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='staggered: other domain', out=o))
    elif c < .45:
      m = [n for n in range(2, shape[0]) if shape[0] % n]
      if m:
        other = grids.Grid((r.choice(m),) * nd, domain=src.domain)
        _, o = vlib.call(lambda: resize.downsample_staggered_velocity(src, other, arg), lambda x: dict(e=''))
        ev.append(dict(op='refuse', k='staggered: fractional ratio', out=o))
    return ev
  if kind == 'tophat':
    nd = r.choice([1, 1, 2, 2, 3]) if r.random() < .95 else 3
    if nd == 3:
      fac = [r.choice([1, 2, 2]) for _ in range(nd)]
    else:
      fac = [r.choice([1, 2, 2, 4]) for _ in range(nd)]
    coarse = tuple(r.randint(1 if f > 1 else 2, 3 if nd < 3 else 2) for f in fac)
    shape = tuple(n * f for n, f in zip(coarse, fac))
    steps = [r.choice([.25, .5, 1.]) for _ in range(nd)]
    lo = [r.choice([0., 0., -1.]) for _ in range(nd)]
    src = mk(shape, steps, lo)
    dst = mk(coarse, [h * f for h, f in zip(steps, fac)], lo)
    same_bc = r.random() < .3
    v, F = [], []
    for f, n in zip(fac, shape):
      opts = [f] + [q for q in (2, 4, 6) if q >= f and q // 2 <= max(1, n - 2)]
      F.append(r.choice(opts))
    ncomp = r.choice([1, 1, nd])
    for c in range(ncomp):
      if not (same_bc and v):
        bc = bc_for(r, nd, r.random() < .3)
      off = []
      for ax in range(nd):
        t = bc.types[ax]
        ch = [.5] if N in t else [0., .5, 1.] if t[0] == P else [.5, 1., 0.]
        if fac[ax] == 1 and F[ax] > 1:
          ch = [x for x in ch if x != .5]     # no centred even filter without coarsening
          if not ch:
            F[ax] = 1
            ch = [.5]
        off.append(r.choice(ch))
      v.append(grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, shape)), tuple(off), src), bc))
    for ax in range(nd):   # a later component may have reduced F
      if fac[ax] == 1 and any(u.offset[ax] == .5 for u in v):
        F[ax] = 1
    v = tuple(v)
    if F == fac and r.random() < .7:
      args = ()
    elif len(set(F)) == 1 and r.random() < .5:
      args = (F[0],)
    else:
      args = (tuple(F),)
    outs, o = vlib.call(lambda: J(lambda x: resize.top_hat_downsample(src, dst, x, *args))(v), lambda x: dict(e=''))
    ev.append(dict(op='tophat', k='top-hat f%s F%s %s' % (fac, F, ' | '.join(key_of(u.bc, u.offset) for u in v)),
                   v=[field(u) for u in v], F=F, fac=fac, g=gridj(dst), out=o,
                   outs=[field(u) for u in outs] if outs is not None else []))
    c = r.random()
    bad = None
    if c < .1:
      bad = ('filter narrower than ratio', src, dst, tuple(f // 2 if f > 1 else f for f in F)) if max(F) > 1 and any(f // 2 < q for f, q in zip(F, fac)) else None
    elif c < .2:
      bad = ('odd filter', src, dst, 3)
    elif c < .3:
      bad = ('other domain', src, grids.Grid(coarse, domain=tuple((l, h + 1) for l, h in src.domain)), None)
    elif c < .4:
      bad = ('field on another grid', mk(shape, [2 * h for h in steps], lo), mk(coarse, [2 * h * f for h, f in zip(steps, fac)], lo), None)
    elif c < .5 and shape[0] % 3 == 0:
      bad = ('odd ratio', src, grids.Grid((shape[0] // 3,) + coarse[1:], domain=src.domain), None)
    if bad:
      why, s_, d_, fs = bad
      _, o = vlib.call(lambda: resize.top_hat_downsample(s_, d_, v, fs), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='top-hat: ' + why, out=o))
    return ev
  # spectral
  m = (r.randint(1, 6), r.randint(1, 6))
  fac = r.choice([1, 2, 2, 3, 4])
  n = tuple(q * fac for q in m) if r.random() < .7 else (m[0] + r.randint(0, 5), m[1])
  if n[1] != m[1] * fac:   # the ratio is the same on both axes only up to rounding
    pass
  h = r.choice([.5, 1.])
  lo = (0., 0.)
  dst = mk(m, (h, 2 * h), lo)
  src = grids.Grid(n, domain=dst.domain)
  shp = (n[0], n[1] // 2 + 1)
  if shp[1] < m[1] // 2 + 1:
    return []
  a = dyarr(r, shp) + 1j * dyarr(r, shp)
  if r.random() < .3:
    a = a.astype(np.complex64)
  out, o = vlib.call(lambda: J(lambda x: resize.downsample_spectral(src, dst, x))(jnp.asarray(a)), lambda x: dict(e=''))
  e = dict(op='spectral', k='spectral %s -> %s' % (n, m), re=arr(a.real), im=arr(a.imag), m=list(m),
           scale=fx((m[0] / n[0]) ** 2), out=o, re2=0, im2=0)
  if out is not None:
    out = np.asarray(out)
    e['re2'] = dict(arr(out.real), e=''); e['im2'] = dict(arr(out.imag), e='')
  return [e]
