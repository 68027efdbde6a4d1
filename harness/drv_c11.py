"""C11: semi-implicit steppers."""
import numpy as np
import vlib
from vlib import rng_for, dy, fx
from stub import Problem, on_tree, state, tree_json, tree_call, slope
import jax
import jax.numpy as jnp
from jax_cfd.spectral import time_stepping as ts

# order with both parts, with the explicit part alone, with the implicit part alone
NAMED = dict(backward_forward_euler=(1, 1, 1), crank_nicolson_rk2=(2, 2, 2), crank_nicolson_rk3=(2, 3, 2),
             crank_nicolson_rk4=(2, 4, 2), imex_rk_sil3=(2, 3, 2))


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(240 if tier == 'quick' else 4000)]


def equation(ex, im, so):
  class Eq(ts.ImplicitExplicitODE):
    explicit_terms = staticmethod(ex)
    implicit_terms = staticmethod(im)
    implicit_solve = staticmethod(so)
  return Eq()


def run(spec):
  r = rng_for(spec['seed'], 'c11', spec['i'])
  ev = []
  if spec['i'] % 8 == 7:
    for name, orders in sorted(NAMED.items()):
      which = r.randrange(3)
      pr = Problem(r, 3, proj='none', exp=which != 2, imp=which != 1)
      if which != 2 and np.abs(pr.A).sum() + np.abs(pr.q).sum() < .5:
        pr.A = np.array([[0, .5, 0], [-.5, 0, .25], [.25, 0, -.5]]); pr.q = np.array([.25, -.5, .125])
      if which != 1:
        pr.g = np.array([-1., -.5, -2.])
      if name == 'imex_rk_sil3' and which == 1:
        pr.q[:] = 0   # third order holds for linear explicit terms
        pr.A = np.array([[0, .5, 0], [-.5, 0, .25], [.25, 0, -.5]])
      u0 = np.array([dy(r, .25, 1, 8) for _ in range(3)])
      eq = equation(pr.rhs, pr.imp, pr.solve)
      s, o = vlib.call(lambda: slope(lambda dt: getattr(ts, name)(eq, dt), lambda v: pr.rhs(v, np) + pr.imp(v), u0, 1.0,
                                     16 if orders[which] >= 3 else 64), lambda x: dict(e=''))
      ev.append(dict(op='order', k=name + [' both', ' explicit', ' implicit'][which], p=fx(orders[which]), slope=fx(s or 0), e=o['e']))
    for _ in range(3):
      n = r.randint(1, 3)
      da, db, dc = r.choice([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (0, -1, 0), (1, 0, 1), (1, 1, 0)])
      co = [[.5] * (n + 1 + da), [.5] * (n + db), [.5] * (n + dc)]
      eq = equation(lambda x: x, lambda x: x, lambda x, e: x)
      _, o = vlib.call(lambda: ts.low_storage_runge_kutta_crank_nicolson(*co, eq, .1), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='low storage with %s coefficients' % [len(c) for c in co], out=o, want='ValueError'))
      ln = [n - 1, n - 1, n, n]
      ln[r.randrange(4)] += 1
      _, o = vlib.call(lambda: ts.ImExButcherTableau(a_ex=[[.5] * (i + 1) for i in range(ln[0])], a_im=[[.5] * (i + 2) for i in range(ln[1])],
                                                     b_ex=[.5] * ln[2], b_im=[.5] * ln[3]), lambda x: dict(e=''))
      ev.append(dict(op='refuse', k='imex tableau %s' % ln, out=o, want='ValueError'))
    return ev
  n = r.choice([1, 2, 3, 4])
  steady = r.random() < .15
  pr = Problem(r, n, proj='none', imp=r.random() < .85, exp=r.random() < .85)
  u = state(r, n)
  if steady:   # the two parts cancel at the initial state
    v = np.array(tree_json(u)['v']) / vlib.ONE
    pr.q[:] = 0
    pr.c = -(pr.A @ v + pr.imp(v))
  eq = equation(on_tree(pr.rhs), on_tree(pr.imp), on_tree(pr.solve))
  ev.append(dict(op='new', k='state', u=tree_json(u), p=pr.json()))
  for _ in range(r.randint(1, 4)):
    name = r.choice(sorted(NAMED) + ['low_storage', 'imex', 'imex'])
    if steady:
      name = r.choice(sorted(NAMED))
    dt = r.choice([.0625, .125, .25, .5, 0.])
    co, step = dict(none=0), (lambda: getattr(ts, name)(eq, dt))
    c = lambda: 0. if r.random() < .3 else dy(r, -1, 1, 4)
    if name == 'low_storage':
      m = r.randint(1, 4) if r.random() < .85 else r.randint(5, 7)
      al = [0.] + sorted(r.choice([.25, .5, .75, 1.]) for _ in range(m))
      be, ga = [0.] + [c() for _ in range(m - 1)], [c() for _ in range(m)]
      co = dict(alpha=[fx(x) for x in al], beta=[fx(x) for x in be], gamma=[fx(x) for x in ga])
      step = lambda: ts.low_storage_runge_kutta_crank_nicolson(al, be, ga, eq, dt)
    elif name == 'imex':
      m = r.randint(1, 4) if r.random() < .85 else r.randint(5, 7)
      aex = [[c() for _ in range(i + 1)] for i in range(m - 1)]
      aim = [[c() for _ in range(i + 1)] + [r.choice([0., .25, .5])] for i in range(m - 1)]
      bex, bim = [c() for _ in range(m)], [c() for _ in range(m)]
      f = lambda a: [fx(x) for x in a]
      co = dict(aex=[f(x) for x in aex], aim=[f(x) for x in aim], bex=f(bex), bim=f(bim))
      if r.random() < .4:   # the same tableau as full rows, padded with zeros
        aex = [x + [0.] * (m - 1 - len(x)) for x in aex]
        aim = [x + [0.] * (m - len(x)) for x in aim]
      step = lambda: ts.imex_runge_kutta(ts.ImExButcherTableau(a_ex=aex, a_im=aim, b_ex=bex, b_im=bim), eq, dt)
    def again():   # a step function carries nothing over from an earlier call
      once = step()
      once(jax.tree.map(lambda q: q * 2. + 1., u))
      return once(u)
    mode = r.random()
    fn = (lambda: jax.jit(step())(u)) if mode < .15 else again if mode < .4 else (lambda: step()(u))
    v, out = tree_call(fn)
    ev.append(dict(op='step', k='%s%s' % (name, ' steady' if steady else ''), name=name, co=co, dt=fx(dt), out=out, steady=steady))
    if v is None:
      break
    if not steady:
      u = v
  return ev
