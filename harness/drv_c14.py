"""C14: spectral operators and equations."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries
from jax_cfd.spectral import equations as eqs, utils as su
from jax_cfd.ml import equations as meqs, physics_specifications as mps
import haiku as hk

PI2 = 2 * np.pi


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(320 if tier == 'quick' else 4500)]


def cx(a):
  a = np.asarray(a)
  re, im = arr(a.real), arr(a.imag)
  return dict(s=list(a.shape), re=re['v'], im=im['v'], ok=re['ok'] and im['ok'], e='')


def cxt(x):
  return cx(x)


def cdy(r, shape, q=4, lo=-2, hi=2):
  return dyarr(r, shape, lo, hi, q) + 1j * dyarr(r, shape, lo, hi, q)


def cerr(o):
  if 're' not in o:
    o.update(re=[], im=[])
  return o


def call(fn, proj=cxt):
  x, o = vlib.call(fn, proj)
  return x, cerr(o)


def run(spec):
  i = spec['i']
  r = rng_for(spec['seed'], 'c14', i)
  kind = ['ns', 'ks', 'util', 'burgers', 'nls', 'ns', 'util', 'mask'][i % 8]
  ev = []
  jit = r.random() < .2
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  tau = r.choice([.25, .5, 1., .0625])
  if kind == 'ns':
    n, m = r.randint(2, 6), r.randint(2, 6)
    mm = (r.choice([.5, 1., 1., 2.]), r.choice([.5, 1., 1., 2.]))
    lo = r.choice([0., 0., 1.])
    grid = grids.Grid((n, m), domain=((lo, lo + PI2 * mm[0]), (0., PI2 * mm[1])))
    ku = [fx(1 / mm[0]), fx(1 / mm[1])]
    w = cdy(r, (n, m // 2 + 1))
    if r.random() < .5:      # the spectrum of a real field
      w = np.fft.rfft2(dyarr(r, (n, m), -1, 1)) / 2
      w = np.round(w * 16) / 16
    visc, drag = r.choice([.25, .5, 1. / 16, 0.]), r.choice([0., 0., .5, .125])
    smooth = r.random() < .6
    forced = r.random() < .5
    fa = r.choice([0., 0., .5, -1.])
    f1, f2 = dyarr(r, (n, m), -1, 1), dyarr(r, (n, m), -1, 1)
    def forcing(g):
      def f(v):
        return tuple(grids.GridArray(fa * u.data + c, u.offset, u.grid) for u, c in zip(v, (f1, f2)))
      return f
    kw = {}
    if drag or r.random() < .5:
      kw['drag'] = drag
    if not smooth or r.random() < .5:
      kw['smooth'] = smooth
    if forced:
      kw['forcing_fn'] = forcing
    eq = eqs.NavierStokes2D(visc, grid, **kw)
    base = dict(eq='ns', half=False, ku=ku, a=cx(w), nu=fx(visc), drag=fx(drag), tau=fx(tau), tol=96)
    wj = jnp.asarray(w)
    key = '%dx%d smooth=%s forced=%s' % (n, m, smooth, forced)
    _, o = call(lambda: J(eq.implicit_terms)(wj)); ev.append(dict(base, op='linear', k='NS linear ' + key, out=o))
    _, o = call(lambda: J(lambda x: eq.implicit_solve(x, tau))(wj)); ev.append(dict(base, op='solve', k='NS solve ' + key, out=o, tol=200))
    _, o = call(lambda: J(eq.explicit_terms)(wj))
    ev.append(dict(base, op='explicit', k='NS explicit ' + key, n=[n, m], smooth=smooth, forced=forced, fa=fx(fa),
                   f1=cx(np.fft.rfft2(f1)), f2=cx(np.fft.rfft2(f2)), out=o, tol=1200))
    # the same equation assembled by its configuration, with a plain Euler step
    specs = mps.SpectralNavierStokesPhysicsSpecs(forcing_module=forcing if forced else None, viscosity=visc, drag=drag, smooth=smooth)
    def euler(eq, dt):
      def step(x):
        return x + dt * (eq.explicit_terms(x) + eq.implicit_terms(x))
      return step
    filt = n == m and r.random() < .6
    kw = dict(do_filter_step=filt) if filt or r.random() < .5 else {}
    fn = hk.without_apply_rng(hk.transform(lambda x: meqs.modular_spectral_step_fn(grid, tau, specs, time_stepper=euler, **kw)(x)))
    _, o = call(lambda: fn.apply(fn.init(None, wj), wj))
    ev.append(dict(base, op='module', k='NS module ' + key + ' filter=%s' % filt, n=[n, m], smooth=smooth, forced=forced, fa=fx(fa), filter=filt,
                   la=fx(-np.log(1e-6)), order=2, f1=cx(np.fft.rfft2(f1)), f2=cx(np.fft.rfft2(f2)), out=o, tol=1600))
    for c in (0, 1):
      _, o = call(lambda: J(lambda x: su.vorticity_to_velocity(grid)(x)[c])(wj))
      ev.append(dict(base, op='velocity', k='velocity from vorticity %dx%d' % (n, m), c=c + 1, out=o, tol=96))
    b = cdy(r, w.shape)
    _, o = call(lambda: J(lambda x, y: su.spectral_curl_2d(grid.rfft_mesh(), (x, y)))(wj, jnp.asarray(b)))
    ev.append(dict(base, op='curl', k='spectral curl', b=cx(b), out=o))
    if r.random() < .25:     # the assembled turbulence set-up: drag 0.1, forcing sin(4y) on the x component
      n2, m2 = 3, r.choice([10, 11, 12])
      g2 = grids.Grid((n2, m2), domain=((0., PI2), (0., PI2)))
      e2 = eqs.ForcedNavierStokes2D(visc, g2, smooth)
      w2 = np.zeros((n2, m2 // 2 + 1), complex)
      f1 = np.broadcast_to(np.sin(4 * np.arange(m2) * PI2 / m2), (n2, m2))
      b2 = dict(eq='ns', half=False, ku=[fx(1.), fx(1.)], a=cx(w2), nu=fx(visc), drag=fx(.1), tau=fx(tau), tol=96)
      _, o = call(lambda: e2.explicit_terms(jnp.asarray(w2)))
      ev.append(dict(b2, op='explicit', k='forced NS at rest', n=[n2, m2], smooth=smooth, forced=True, fa=0,
                     f1=cx(np.fft.rfft2(f1)), f2=cx(0 * w2), out=o, tol=1200))
      w2 = cdy(r, w2.shape)
      b2['a'] = cx(w2)
      _, o = call(lambda: e2.implicit_terms(jnp.asarray(w2)))
      ev.append(dict(b2, op='linear', k='forced NS linear', out=o, tol=200))
    return ev
  if kind in ('ks', 'burgers'):
    N = r.choice([2, 4, 6, 8, 10, 12])
    m = r.choice([1., 1., 2., 2., .5])
    if kind == 'ks' and N / 2 / m > 5:
      m = 2.
    grid = grids.Grid((N,), domain=((0., PI2 * m),))
    u = cdy(r, (N // 2 + 1,))
    if r.random() < .4:
      u = np.round(np.fft.rfft(dyarr(r, (N,), -1, 1)) * 16) / 16
    uj = jnp.asarray(u)
    base = dict(eq=kind, half=True, ku=[fx(1 / m)], a=cx(u), nu=0, drag=0, tau=fx(tau), tol=400)
    if kind == 'ks':
      smooth = r.random() < .7
      eq = eqs.KuramotoSivashinsky(grid, **({} if smooth and r.random() < .5 else dict(smooth=smooth)))
      key = 'N=%d smooth=%s' % (N, smooth)
      _, o = call(lambda: J(eq.implicit_terms)(uj)); ev.append(dict(base, op='linear', k='KS linear ' + key, out=o))
      # 1 - tau*(k^2 - k^4) never vanishes for tau < 4
      _, o = call(lambda: J(lambda x: eq.implicit_solve(x, tau))(uj)); ev.append(dict(base, op='solve', k='KS solve ' + key, out=o, tol=1500))
      _, o = call(lambda: J(eq.explicit_terms)(uj)); ev.append(dict(base, op='explicit', k='KS explicit ' + key, smooth=smooth, out=o))
      return ev
    visc = r.choice([.25, .0625, 1.])
    f = dyarr(r, (N,), -1, 1)
    forced = r.random() < .5
    t0 = r.choice([0., .5, 1.25])
    seen = []
    def module(g, seed):
      seen.append((g == grid, seed))
      return lambda t: jnp.asarray(f) * (1 + t)
    seed = r.randint(0, 5)
    mode = 'module' if forced else r.choice(['none', 'plain'])
    eq = (eqs.ForcedBurgersEquation(visc, grid, seed, module) if forced else
          eqs.BurgersEquation(visc, grid) if mode == 'plain' else eqs.ForcedBurgersEquation(visc, grid, forcing_module=None))
    if forced:
      ev.append(dict(op='clock', k='forcing module arguments', got=[fx(seen == [(True, seed)])], want=[fx(1.)]))
    base['nu'] = fx(visc)
    key = 'N=%d %s' % (N, mode)
    st = (uj, t0)
    y, o = call(lambda: J(eq.implicit_terms)(st), lambda z: cx(z[0])); ev.append(dict(base, op='linear', k='Burgers linear ' + key, out=o))
    if y is not None:
      ev.append(dict(op='clock', k='Burgers implicit clock', got=[fx(y[1])], want=[0]))
    y, o = call(lambda: J(lambda x: eq.implicit_solve(x, tau))(st), lambda z: cx(z[0])); ev.append(dict(base, op='solve', k='Burgers solve ' + key, out=o))
    if y is not None:
      ev.append(dict(op='clock', k='Burgers solve clock', got=[fx(y[1])], want=[fx(t0)]))
    y, o = call(lambda: J(eq.explicit_terms)(st), lambda z: cx(z[0]))
    ev.append(dict(base, op='explicit', k='Burgers explicit ' + key, forced=forced, f1=cx(np.fft.rfft(f * (1 + t0))), out=o))
    if y is not None:
      ev.append(dict(op='clock', k='Burgers clock rate', got=[fx(y[1])], want=[fx(1.)]))
    return ev
  if kind == 'nls':
    N = r.choice([2, 4, 6, 8])
    m = r.choice([1., 2., .5])
    grid = grids.Grid((N,), domain=((0., PI2 * m),))
    u = cdy(r, (N,), lo=-1, hi=1)
    uj = jnp.asarray(u)
    smooth = r.random() < .6
    eq = eqs.NonlinearSchrodinger(grid, **({} if smooth and r.random() < .5 else dict(smooth=smooth)))
    base = dict(eq='nls', half=False, ku=[fx(1 / m)], a=cx(u), nu=0, drag=0, tau=fx(tau), tol=300)
    key = 'N=%d smooth=%s' % (N, smooth)
    _, o = call(lambda: J(eq.implicit_terms)(uj)); ev.append(dict(base, op='linear', k='NLS linear ' + key, out=o))
    _, o = call(lambda: J(lambda x: eq.implicit_solve(x, tau))(uj)); ev.append(dict(base, op='solve', k='NLS solve ' + key, out=o))
    _, o = call(lambda: J(eq.explicit_terms)(uj)); ev.append(dict(base, op='explicit', k='NLS explicit ' + key, smooth=smooth, out=o))
    if r.random() < .3:
      _, o = call(lambda: eqs.NonlinearSchrodinger(grids.Grid((N + 1,), domain=((0., PI2),))), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='NLS odd size', out=o))
    return ev
  if kind == 'mask':
    n, m = r.randint(2, 14), r.randint(2, 14)
    h = (r.choice([.5, 1., .25]), r.choice([.5, 1., .25]))
    grid = grids.Grid((n, m), step=h)
    _, o = vlib.call(lambda: J(lambda: su.brick_wall_filter_2d(grid))(), lambda x: dict(arr(x), e=''))
    ev.append(dict(op='mask', k='brick wall %dx%d' % (n, m), name='brick', n=[n, m], ku=[0, 0], out=o))
    _, o = vlib.call(lambda: J(lambda: su.circular_filter_2d(grid))(), lambda x: dict(arr(x), e=''))
    ev.append(dict(op='mask', k='circular %dx%d' % (n, m), name='circ', n=[n, m],
                   ku=[fx(1 / (n * h[0])), fx(1 / (m * h[1]))], out=o))
    n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10])
    x = dyarr(r, (n, n), -1, 1)
    alpha, order = r.choice([1e-6, 1e-3, .1]), r.choice([1, 2, 3])
    kw = {}
    if alpha != 1e-6 or r.random() < .5: kw['alpha'] = alpha
    if order != 2 or r.random() < .5: kw['order'] = order
    xh = np.fft.rfft2(x)
    _, o = call(lambda: J(lambda a: su.exponential_filter(a, **kw))(jnp.asarray(x)), lambda y: cx(np.fft.rfft2(np.asarray(y))))
    ev.append(dict(op='expfilter', k='exponential filter n=%d order %d' % (n, order), n=[n], a=cx(xh), la=fx(-np.log(alpha)), order=order, out=o, tol=400))
    mask = dyarr(r, (n, n), 0, 1)
    a = cdy(r, (n, n))
    c = r.choice([1., .5, -1.])
    _, o = call(lambda: J(su.filter_step(lambda z: c * z, jnp.asarray(mask)))(jnp.asarray(a)))
    ev.append(dict(op='fstep', k='filter_step', a=cx(a * c), m=arr(mask), out=o, tol=8))
    return ev
  # padding and truncation
  N = r.choice([2, 4, 6, 8, 10, 12, 14, 16])
  u = cdy(r, (N // 2 + 1,))
  x, o = call(lambda: J(su.padded_irfft)(jnp.asarray(u)), lambda y: cx(np.fft.rfft(np.asarray(y))) if np.asarray(y).shape == (3 * N // 2,) else cx(np.asarray(y)))
  ev.append(dict(op='pad32', k='padded_irfft N=%d' % N, a=cx(u), out=o, tol=96))
  x = dyarr(r, (3 * N // 2,), -1, 1)
  _, o = call(lambda: J(su.truncated_rfft)(jnp.asarray(x)))
  ev.append(dict(op='cut32', k='truncated_rfft N=%d' % N, a=cx(np.fft.rfft(x)), keep=N // 2 + 1, out=o, tol=96))
  n = r.choice([2, 4, 6, 8, 10])
  u = cdy(r, (n,))
  _, o = call(lambda: J(su.padded_ifft_2x)(jnp.asarray(u)), lambda y: cx(np.fft.fft(np.asarray(y))))
  ev.append(dict(op='pad2', k='padded_ifft_2x n=%d' % n, a=cx(u), out=o, tol=96))
  x = cdy(r, (2 * n,))
  _, o = call(lambda: J(su.truncated_fft_2x)(jnp.asarray(x)))
  ev.append(dict(op='cut2', k='truncated_fft_2x n=%d' % n, a=cx(np.fft.fft(x)), out=o, tol=96))
  return ev
