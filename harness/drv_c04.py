"""C04: difference operators and vector identities."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, offj, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries, finite_differences as fd
from drv_c01 import rand_grid, rand_bc, P, D, N
from drv_c05 import loc_for, key_of
from drv_c03 import cfield


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(560 if tier == 'quick' else 8000)]


def gvar(r, g, off, bc, dtype=np.float64, lo=-4., hi=4.):
  return grids.GridVariable(grids.GridArray(jnp.asarray(dyarr(r, g.shape, lo, hi, dtype=dtype)), off, g), bc)


def run(spec):
  r = rng_for(spec['seed'], 'c04', spec['i'])
  kind = ['op', 'op', 'op', 'vec', 'vec', 'grad', 'ident'][spec['i'] % 7]
  g = rand_grid(r, None, 2, 5)
  nd = g.ndim
  ev = []
  jit = r.random() < .1
  J = (lambda f: jax.jit(f)) if jit else (lambda f: f)
  dtype = r.choice([np.float64, np.float64, np.float32])
  if kind == 'op':
    bc = rand_bc(r, nd)
    off = loc_for(r, bc, nd)
    u = gvar(r, g, off, bc, dtype)
    k = key_of(bc, off)
    fns = dict(fwd=fd.forward_difference, bwd=fd.backward_difference, ctr=fd.central_difference)
    for n in sorted(fns):
      ax = r.randrange(nd)
      _, out = vlib.call(lambda: J(lambda x: fns[n](x, ax))(u), cfield)
      ev.append(dict(op=n, k='%s %s' % (n, k), f=[field(u)], ax=ax + 1, out=out))
    _, out = vlib.call(lambda: J(fd.laplacian)(u), cfield)
    ev.append(dict(op='lap', k='laplacian ' + k, f=[field(u)], out=out))
    n = r.choice(sorted(fns))
    axes = None if r.random() < .5 else tuple(r.randrange(nd) for _ in range(r.randint(1, nd)))
    e = dict(op='multi', k='%s all %s' % (n, k), f=[field(u)], fn=n, axes=[a + 1 for a in (axes or range(nd))])
    outs, e['out'] = vlib.call(lambda: fns[n](u) if axes is None else fns[n](u, axes), lambda x: dict(e=''))
    e['outs'] = [cfield(x) for x in outs] if outs is not None else []
    ev.append(e)
  elif kind == 'vec':
    style = r.choice(['stag', 'stag', 'stag', 'coll', 'rand'])
    bcs = [rand_bc(r, nd) for _ in range(nd)]
    if r.random() < .4:
      bcs = [boundaries.periodic_boundary_conditions(nd)] * nd
    vs = []
    for c in range(nd):
      if style == 'stag':
        off = tuple(1. if a == c else .5 for a in range(nd))
        t = [p if not (a == c and N in p) else r.choice([(P, P), (D, D)]) for a, p in enumerate(bcs[c].types)]
        bc = bcs[c] if t == list(bcs[c].types) else rand_bc(r, nd, t)
      elif style == 'coll':
        off, bc = g.cell_center, bcs[c]
      else:
        bc = bcs[c]; off = loc_for(r, bc, nd)
      vs.append(gvar(r, g, off, bc, dtype))
    if r.random() < .06:
      vs = vs[:-1] if r.random() < .5 and nd > 1 else vs + [vs[0]]
    vs = tuple(vs)
    k = '%s %dd' % (style, nd)
    fl = [field(v) for v in vs]
    for n, fn in (('div', fd.divergence), ('cdiv', fd.centered_divergence), ('curl2', fd.curl_2d)):
      if n == 'curl2' and nd == 3 and r.random() < .8:
        continue
      _, out = vlib.call(lambda: J(fn)(vs), cfield)
      ev.append(dict(op=n, k='%s %s' % (n, k), f=fl, out=out))
    if nd == 3 or r.random() < .2:
      outs, out = vlib.call(lambda: J(fd.curl_3d)(vs), lambda x: dict(e=''))
      ev.append(dict(op='curl3', k='curl3 ' + k, f=fl, out=out, outs=[cfield(x) for x in outs] if outs is not None else []))
  elif kind == 'grad':
    vec = r.random() < .6
    vs = []
    for c in range(nd if vec else 1):
      bc = rand_bc(r, nd)
      off = tuple(1. if a == c else .5 for a in range(nd)) if r.random() < .5 else loc_for(r, bc, nd)
      if any(N in t and o != .5 for t, o in zip(bc.types, off)):
        off = loc_for(r, bc, nd)
      vs.append(gvar(r, g, off, bc, dtype))
    e = dict(op='grad', k='gradient_tensor %s' % ('vector' if vec else 'scalar'), f=[field(v) for v in vs], vec=vec, shape=[], outs=[])
    t, e['out'] = vlib.call(lambda: fd.gradient_tensor(tuple(vs) if vec else vs[0]), lambda x: dict(e=''))
    if t is not None:
      e['shape'] = list(np.asarray(t).shape)[:2] if vec else list(t.shape)[:1]
      e['outs'] = [[cfield(t[a, c]) for c in range(nd)] if vec else [cfield(t[a])] for a in range(nd)]
    ev.append(e)
    if r.random() < .3:
      bad = gvar(r, g, (.25,) * nd, boundaries.periodic_boundary_conditions(nd))
      _, out = vlib.call(lambda: fd.gradient_tensor(bad), lambda x: dict(e='none', ok=True, v=[]))
      ev.append(dict(op='zero', k='refuse quarter offset', f=[field(bad)],
                     out=dict(e='' if out['e'] == 'ValueError' else 'accepted', ok=True, v=[])))
  else:
    per = boundaries.periodic_boundary_conditions(nd)
    c = gvar(r, g, g.cell_center, per, dtype)
    grad = fd.forward_difference(c)
    gv = tuple(grids.GridVariable(x, per) for x in grad)
    w = tuple(gvar(r, g, o, per, dtype) for o in g.cell_faces)
    fl = [field(c)]
    _, a = vlib.call(lambda: fd.laplacian(c), cfield)
    _, b = vlib.call(lambda: fd.divergence(gv), cfield)
    ev.append(dict(op='equal', k='laplacian = div grad', f=fl, out=a, out2=b))
    if nd == 2:
      psi = gvar(r, g, (1., 1.), per, dtype)
      u = tuple(grids.GridVariable(x, per) for x in (fd.backward_difference(psi, 1), -fd.backward_difference(psi, 0)))
      _, o = vlib.call(lambda: fd.divergence(u), cfield)
      ev.append(dict(op='zero', k='div of discrete curl', f=[field(psi)], out=o))
      _, o = vlib.call(lambda: fd.curl_2d(gv), cfield)
      ev.append(dict(op='zero', k='curl of gradient', f=fl, out=o))
    if nd == 3:
      for o_ in fd.curl_3d(gv):
        _, o = vlib.call(lambda: o_, cfield)
        ev.append(dict(op='zero', k='curl of gradient', f=fl, out=o))
        A = tuple(gvar(r, g, tuple(.5 if a == i else 0. for a in range(3)), per, dtype) for i in range(3))
      cu = tuple(grids.GridVariable(x, per) for x in fd.curl_3d(A))
      # components sit half a cell up in the two transverse directions: forward divergence
      _, o = vlib.call(lambda: sum(fd.forward_difference(x, a) for a, x in enumerate(cu)), cfield)
      ev.append(dict(op='zero', k='div of curl_3d', f=[field(x) for x in A], out=o))
    dot = lambda a, b: float(np.sum(np.asarray(a.data, np.float64) * np.asarray(b.data, np.float64)))
    lhs = sum(dot(x, y) for x, y in zip(grad, w))
    rhs = -dot(c, fd.divergence(w))
    ev.append(dict(op='number', k='gradient and divergence adjoint', f=fl, a=fx(lhs), b=fx(rhs)))
    for k, f in (('divergence', fd.divergence(w)), ('centered divergence', fd.centered_divergence((c,) * nd)), ('laplacian', fd.laplacian(c))):
      ev.append(dict(op='number', k=k + ' sums to zero', f=fl, a=fx(float(np.sum(np.asarray(f.data, np.float64)))), b=0))
    # commuting with cyclic shifts, linearity
    sh = tuple(r.randint(-2, 3) for _ in range(nd)); ax = tuple(range(nd))
    roll = lambda x: grids.GridVariable(grids.GridArray(jnp.roll(x.data, sh, ax), x.offset, x.grid), x.bc)
    for n, fn, args in (('laplacian', lambda x: fd.laplacian(*x), (c,)), ('divergence', lambda x: fd.divergence(x), w)):
      _, a = vlib.call(lambda: fn(tuple(roll(x) for x in args)), cfield)
      _, b = vlib.call(lambda: roll(grids.GridVariable(fn(args), per)).array, cfield)
      ev.append(dict(op='equal', k=n + ' commutes with shifts', f=fl, out=a, out2=b))
  return ev
