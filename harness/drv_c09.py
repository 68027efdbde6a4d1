"""C09: functions of sums of one-dimensional operators."""
import numpy as np
import scipy.linalg
import vlib
from vlib import rng_for, dy, dyarr, arr, offj, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, array_utils as au, fast_diagonalization as fdz
from drv_c01 import rand_grid, rand_bc, P, D, N
from drv_c05 import loc_for


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(480 if tier == 'quick' else 6000)]


def mat(m):
  return [[fx(x) for x in row] for row in np.asarray(m)]


def proj(x):
  d = arr(x); d.update(e='', ty=str(x.dtype)); return d


def operators(r, nd, family, nmax):
  ops = []
  steps = [r.choice([.5, 1., 2.]) for _ in range(nd)]
  sizes = [r.randint(1 if r.random() < .1 else 2, nmax) for _ in range(nd)]
  for n, h in zip(sizes, steps):
    if family == 'laplacian':
      ops.append(au.laplacian_matrix(n, h))
    elif family == 'walls':
      t = r.choice([(D, D), (N, N), (D, N), (N, D), (P, P)])
      g = grids.Grid((n,), step=(h,))
      off = (r.choice([.5, 1.]) if N not in t and n > 1 else .5,)
      ops.append(au.laplacian_matrix_w_boundaries(g, off, boundaries.HomogeneousBoundaryConditions([t]))[0])
    elif family == 'symcirc':
      c = [dy(r, -1, 1) for _ in range(n)]
      c = [(c[i] + c[-i % n]) / 2 for i in range(n)]
      ops.append(scipy.linalg.circulant(c))
    elif family == 'circ':
      ops.append(scipy.linalg.circulant([dy(r, -1, 1) for _ in range(n)]))
    else:
      a = np.array([[dy(r, -1, 1) for _ in range(n)] for _ in range(n)])
      ops.append((a + a.T) / 2)
  return ops


def run(spec):
  r = rng_for(spec['seed'], 'c09', spec['i'])
  kind = ['fn', 'fn', 'fn', 'pinv', 'pinv', 'mat', 'refuse'][spec['i'] % 7]
  nd = r.choice([1, 2, 2, 3])
  nmax = 3 if nd == 3 else 6
  ev = []
  dtype = r.choice([np.float64, np.float64, np.float32])
  big = 16 if dtype == np.float32 else 1
  jit = r.random() < .1
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)

  def impls(fam, ops):
    out = []
    herm = fam in ('laplacian', 'walls', 'symcirc', 'sym')
    circ = fam in ('laplacian', 'symcirc', 'circ')
    even = ops[-1].shape[0] % 2 == 0
    if herm:
      out.append('matmul')
    if circ:
      out.append('fft')
      if even:
        out.append('rfft')
    if (circ and even) or (herm and not even):
      out.append(None)
    return herm, circ, out

  def event(fam, ops, fn, impl, f, b, out, tol, **kw):
    ev.append(dict(op='apply', k='%s of %s with %s' % (fn, fam, impl), fn=fn, ops=[mat(o) for o in ops], b=arr(b), out=out,
                   ty=np.dtype(dtype).name, tol=int(tol), **kw))

  if kind == 'fn':
    fam = r.choice(['laplacian', 'walls', 'symcirc', 'circ', 'sym'])
    ops = operators(r, nd, fam, nmax)
    shape = tuple(o.shape[0] for o in ops)
    if 0 in shape:
      return ev
    b = dyarr(r, shape, -2, 2, dtype=dtype)
    herm, circ, names = impls(fam, ops)
    for impl in names:
      c0, c1 = dy(r, -2, 2), dy(r, -1, 1)
      nrm = sum(np.abs(o).sum(1).max() for o in ops)
      fn = r.choice(['id', 'affine', 'square' if nrm <= 16 else 'id', 'resolvent'])
      kw = {}
      if fn == 'id':
        f = lambda x: x
      elif fn == 'affine':
        f = lambda x: c0 + c1 * x; kw = dict(c0=fx(c0), c1=fx(c1))
      elif fn == 'square':
        f = lambda x: x * x
      else:
        # a negative or small multiple keeps 1 - c x away from zero
        c1 = .5 if fam in ('laplacian', 'walls') else .0625
        if c1 * nrm >= .75 and fam not in ('laplacian', 'walls'):
          c1 = .03125
        if c1 * nrm >= .75 and fam not in ('laplacian', 'walls'):
          continue
        f = lambda x: 1 / (1 - c1 * x); kw = dict(c1=fx(c1))
      _, out = vlib.call(lambda: J(fdz.transform(f, ops, np.dtype(dtype), hermitian=herm, circulant=circ, implementation=impl))(jnp.asarray(b)), proj)
      event(fam, ops, fn, impl, f, b, out, (32 + 8 * nrm * (1 + nrm)) * big, **kw)
    if circ and dtype == np.float64 and r.random() < .3:
      # complex data: the real operator acts on both parts
      z = b + 1j * dyarr(r, shape, -2, 2)
      t, o = vlib.call(lambda: fdz.transform(lambda x: x, ops, np.dtype(np.complex128), circulant=True, implementation='fft')(jnp.asarray(z)), lambda x: dict(e=''))
      for part, zz, oo in (('re', z.real, None if t is None else t.real), ('im', z.imag, None if t is None else t.imag)):
        event(fam, ops, 'id', 'fft complex ' + part, None, zz, o if t is None else proj(np.asarray(oo)), 32 + 8 * sum(np.abs(o).sum(1).max() for o in ops))
  elif kind == 'pinv':
    fam = r.choice(['laplacian', 'laplacian', 'neumann', 'dirichlet', 'shifted'])
    if fam == 'laplacian':
      ops = operators(r, nd, 'laplacian', nmax)
    elif fam == 'shifted':
      ops = operators(r, nd, 'symcirc', nmax)
      lim = sum(np.abs(o).sum(1).max() for o in ops)
      ops[0] = ops[0] + (np.ceil(lim) + 1) * np.eye(len(ops[0]))
    else:
      ops, flags = [], []
      for _ in range(nd):
        n, h = r.randint(2, nmax), r.choice([.5, 1., 2.])
        t = r.choice([(N, N), (N, N), (P, P)] if fam == 'neumann' else [(D, D), (D, N), (N, D), (N, N), (P, P)])
        flags.append(D in t)
        ops.append(au.laplacian_matrix_w_boundaries(grids.Grid((n,), step=(h,)), (.5,), boundaries.HomogeneousBoundaryConditions([t]))[0])
      if fam == 'dirichlet' and not any(flags):
        fam = 'neumann'
    shape = tuple(o.shape[0] for o in ops)
    b = dyarr(r, shape, -2, 2, dtype=dtype)
    herm, circ, names = impls(dict(laplacian='laplacian', shifted='symcirc').get(fam, 'walls'), ops)
    nrm = sum(np.abs(o).sum(1).max() for o in ops)
    fn = 'pinv' if fam in ('laplacian', 'neumann') else 'inverse'
    for impl in names:
      _, out = vlib.call(lambda: J(fdz.pseudoinverse(ops, np.dtype(dtype), hermitian=herm, circulant=circ, implementation=impl))(jnp.asarray(b)), proj)
      event(fam, ops, fn, impl, None, b, out, (32 + 8 * nrm) * big)
    if fam == 'laplacian':
      impl = r.choice(names)
      _, out = vlib.call(lambda: fdz.pseudoinverse(ops, np.dtype(dtype), hermitian=True, circulant=True, implementation=impl, cutoff=1e4)(jnp.asarray(b)), proj)
      event(fam, ops, 'zero', impl, None, b, out, 8)
  elif kind == 'mat':
    for _ in range(5):
      n, h = r.randint(1, 7), r.choice([.25, .5, 1., 2.])
      m, o = vlib.call(lambda: au.laplacian_matrix(n, h), lambda x: dict(e=''))
      ev.append(dict(op='lapmat', k='laplacian_matrix %d' % n, n=n, h=fx(h), r=fx(1 / h), o=2, t=['P', 'P'], e=o['e'], m=mat(m) if m is not None else []))
    for _ in range(4):
      nd = r.choice([1, 2, 3])
      g = rand_grid(r, nd, 2, 6)
      bc = boundaries.HomogeneousBoundaryConditions([r.choice([(P, P), (D, D), (N, N), (D, N), (N, D)]) for _ in range(nd)])
      off = loc_for(r, bc, nd)
      m, o = vlib.call(lambda: au.laplacian_matrix_w_boundaries(g, off, bc), lambda x: dict(e=''))
      for a in range(nd):
        ok = m is not None and len(m) == nd
        ev.append(dict(op='lapmat', k='laplacian with boundaries %s at %g, n=%d' % (''.join(vlib.TYPES[x] for x in bc.types[a]), off[a], g.shape[a]), n=g.shape[a],
                       h=fx(g.step[a]), r=fx(1 / g.step[a]), o=offj(off)[a], t=[vlib.TYPES[x] for x in bc.types[a]],
                       e=o['e'] if ok or m is None else 'count', m=mat(m[a]) if ok else []))
    g = rand_grid(r, 1, 3, 5)
    t = r.choice([(N, N), (D, N), (N, D)])
    m, o = vlib.call(lambda: au.laplacian_matrix_w_boundaries(g, (r.choice([0., 1.]),), boundaries.HomogeneousBoundaryConditions([t])), lambda x: dict(e=''))
    ev.append(dict(op='refuse', k='edge neumann', want='NotImplementedError', out=o))
  else:
    def refuse(k, want, fn):
      _, o = vlib.call(fn, lambda x: dict(e=''))
      ev.append(dict(op='refuse', k=k, want=want, out=o))
    n = r.choice([2, 4, 6])
    L = au.laplacian_matrix(n, 1.)
    f64 = np.dtype(np.float64)
    ident = lambda x: x
    refuse('not square', 'ValueError', lambda: fdz.transform(ident, [L[:, :-1]], f64, hermitian=True, circulant=True))
    refuse('one of several not square', 'ValueError', lambda: fdz.transform(ident, [L, L[:-1]], f64, hermitian=True, circulant=True))
    refuse('matmul needs hermitian', 'ValueError', lambda: fdz.transform(ident, [L, L], f64, circulant=True, implementation='matmul'))
    refuse('fft needs circulant', 'ValueError', lambda: fdz.transform(ident, [L, L], f64, hermitian=True, implementation='fft'))
    refuse('rfft needs circulant', 'ValueError', lambda: fdz.transform(ident, [L, L], f64, hermitian=True, implementation='rfft'))
    refuse('inverse: matmul needs hermitian', 'ValueError', lambda: fdz.pseudoinverse([L, L], f64, circulant=True, implementation='matmul'))
    refuse('inverse: fft needs circulant', 'ValueError', lambda: fdz.pseudoinverse([L, L], f64, hermitian=True, implementation='fft'))
    refuse('default on even sizes needs circulant', 'ValueError', lambda: fdz.transform(ident, [L, L], f64, hermitian=True))
    odd = au.laplacian_matrix(n + 1, 1.)
    refuse('default on odd sizes needs hermitian', 'ValueError', lambda: fdz.transform(ident, [L, odd], f64, circulant=True))
    refuse('rfft odd', 'ValueError', lambda: fdz.transform(ident, [L, odd], f64, circulant=True, hermitian=True, implementation='rfft'))
    refuse('unknown implementation', 'ValueError', lambda: fdz.transform(ident, [L], f64, circulant=True, hermitian=True, implementation='dct'))
    for impl in ('matmul', 'fft', 'rfft'):
      refuse('function changes shape ' + impl, 'ValueError', lambda: fdz.transform(lambda x: x[:1], [L, L], f64, circulant=True, hermitian=True, implementation=impl))
    for impl in ('matmul', 'fft'):
      t = fdz.transform(ident, [L, L], f64, circulant=True, hermitian=True, implementation=impl)
      refuse('data of the wrong shape ' + impl, 'ValueError', lambda: t(jnp.ones((n, n + 1))))
    for impl in ('matmul', 'rfft'):
      t = fdz.transform(ident, [L, L], f64, circulant=True, hermitian=True, implementation=impl)
      refuse('data of the wrong dtype ' + impl, 'ValueError', lambda: t(jnp.ones((n, n), jnp.float32)))
  return ev
