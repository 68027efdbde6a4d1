"""C10: explicit Runge-Kutta steppers with projection."""
import numpy as np
import vlib
from vlib import rng_for, dy, fx
from stub import Problem, on_tree, state, tree_json, tree_call, slope
import jax
import jax.numpy as jnp
from jax_cfd.base import time_stepping as ts

NAMED = dict(forward_euler=1, midpoint_rk2=2, heun_rk2=2, classic_rk4=4)


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(240 if tier == 'quick' else 4000)]


def run(spec):
  r = rng_for(spec['seed'], 'c10', spec['i'])
  ev = []
  if spec['i'] % 8 == 7:
    for name, p in sorted(NAMED.items()):
      pr = Problem(r, 3, proj='none', imp=False)
      u0 = np.array([dy(r, -1, 1, 8) for _ in range(3)])
      if np.abs(pr.A).sum() + np.abs(pr.q).sum() < .5:
        pr.A = np.array([[0, .5, 0], [-.5, 0, .25], [.25, 0, -.5]]); pr.q = np.array([.25, -.5, .125])
      eq = ts.ExplicitNavierStokesODE(pr.rhs, lambda v: v)
      s, o = vlib.call(lambda: slope(lambda dt: getattr(ts, name)(eq, dt), lambda v: pr.rhs(v, np), u0, 1.0, 16 if p == 4 else 64), lambda x: dict(e=''))
      ev.append(dict(op='order', k=name, p=fx(p), slope=fx(s or 0), e=o['e']))
    for _ in range(3):
      na, nb = r.choice([(0, 2), (1, 1), (2, 2), (1, 3), (0, 0), (3, 1)])
      _, o = vlib.call(lambda: ts.ButcherTableau(a=[[.5] * (i + 1) for i in range(na)], b=[.5] * nb), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='tableau with %d rows and %d weights' % (na, nb), out=o, want='ValueError'))
    return ev
  n = r.choice([1, 2, 3, 4])
  pr = Problem(r, n, imp=False)
  u = state(r, n)
  eq = ts.ExplicitNavierStokesODE(on_tree(pr.rhs), on_tree(pr.proj))
  ev.append(dict(op='new', k='state', u=tree_json(u), p=pr.json()))
  for _ in range(r.randint(1, 4)):
    name = r.choice(sorted(NAMED) + ['custom', 'custom'])
    dt = r.choice([.0625, .125, .25, .5, 0., -.125])
    tab = dict(a=[], b=[])
    if name == 'custom':
      m = r.randint(1, 5) if r.random() < .85 else r.randint(6, 8)
      c = lambda: 0. if r.random() < .35 else dy(r, -1, 1, 4)
      a = [[c() for _ in range(i + 1)] for i in range(m - 1)]
      b = [c() for _ in range(m)]
      tab = dict(a=[[fx(x) for x in row] for row in a], b=[fx(x) for x in b])
      step = lambda: ts.navier_stokes_rk(ts.ButcherTableau(a=a, b=b), eq, dt)
    else:
      step = lambda: getattr(ts, name)(eq, dt)
    mode = r.random()
    if mode < .15:
      fn = lambda: jax.jit(step())(u)
    elif mode < .25 and name != 'custom':
      fn = lambda: jax.jit(lambda x, h: getattr(ts, name)(eq, h)(x))(u, dt)   # traced step size
    elif mode < .5:   # a step function carries nothing over from an earlier call
      w = jax.tree.map(lambda q: q * 2. + 1., u)

      def fn():
        once = step()
        once(w)
        return once(u)
    else:
      fn = lambda: step()(u)
    v, out = tree_call(fn)
    ev.append(dict(op='step', k='%s, projection %s' % (name, pr.P), name=name, tab=tab, dt=fx(dt), out=out))
    if v is None:
      break
    u = v
  return ev
