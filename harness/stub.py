"""Stub differential equations on pytrees, mirrored by spec/Steppers.tla."""
import numpy as np
import vlib
from vlib import dy, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries


class Problem:

  def __init__(self, r, n, proj=None, nl=True, imp=True, exp=True):
    self.n = n
    self.c = np.array([dy(r, -.5, .5, 8) if exp else 0. for _ in range(n)])
    self.A = np.array([[dy(r, -.5, .5, 8) if exp and r.random() < .6 else 0. for _ in range(n)] for _ in range(n)])
    self.q = np.array([dy(r, -.5, .5, 8) if exp and nl else 0. for _ in range(n)])
    self.P = proj or r.choice(['none', 'mean', 'clip', 'affine'])
    self.g = np.array([-r.choice([0, .5, 1, 2, 4.]) if imp else 0. for _ in range(n)])
    self.d = np.array([dy(r, -.5, .5, 8) if imp and r.random() < .5 else 0. for _ in range(n)])

  def json(self):
    f = lambda a: [fx(x) for x in a]
    return dict(c=f(self.c), A=[f(x) for x in self.A], q=f(self.q), P=self.P, g=f(self.g), d=f(self.d))

  def rhs(self, v, xp=jnp):
    return self.c + self.A @ v + self.q * v * (np.roll(v, -1) if isinstance(v, np.ndarray) else jnp.roll(v, -1))

  def proj(self, v):
    if self.P == 'mean':
      return v - v.mean()
    if self.P == 'clip':
      return v.clip(-1, 1)
    if self.P == 'affine':
      return v * .5 + .25
    return v

  def imp(self, v):
    return self.g * v + self.d

  def solve(self, x, eta):
    return (x + eta * self.d) / (1 - eta * self.g)


def on_tree(fn):
  """Lifts a function on flat vectors to pytrees of any structure."""
  def g(tree, *a):
    leaves, td = jax.tree_util.tree_flatten(tree)
    xp = np if all(isinstance(x, (np.ndarray, np.generic)) for x in leaves) else jnp
    v = xp.concatenate([xp.ravel(x) for x in leaves])
    out = fn(v, *a).astype(v.dtype)
    cuts = np.cumsum([0] + [int(np.prod(x.shape)) for x in leaves])
    return td.unflatten([out[a:b].reshape(x.shape) for a, b, x in zip(cuts, cuts[1:], leaves)])
  return g


def state(r, n, kind=None, dtype=np.float64):
  # most states hold numpy leaves: the steppers are agnostic and this is fast
  vals = [dy(r, -1.5, 1.5, 8) for _ in range(n)]
  v = np.array(vals, dtype)
  kind = kind or r.choice(['vec', 'tuple', 'dict', 'nest', 'gv', 'mat'])
  j = jnp.asarray if r.random() < .35 else np.asarray
  if kind == 'tuple' and n >= 2:
    return (j(v[:1]), j(v[1:]))
  if kind == 'dict' and n >= 2:
    return dict(a=j(v[:1]).reshape(()), b=j(v[1:]))
  if kind == 'nest' and n >= 3:
    return dict(x=(j(v[:1]), [j(v[1:2]).reshape(1, 1)]), y=j(v[2:]))
  if kind == 'gv' and n % 2 == 0:
    g = grids.Grid((n // 2,), step=.5)
    bc = boundaries.periodic_boundary_conditions(1)
    return tuple(grids.GridVariable(grids.GridArray(jnp.asarray(x), o, g), bc) for x, o in ((v[:n // 2], (1.,)), (v[n // 2:], (.5,))))
  if kind == 'mat' and n % 2 == 0:
    return j(v).reshape(2, n // 2)
  return j(v)


def tree_json(t):
  leaves, td = jax.tree_util.tree_flatten(t)
  v = np.concatenate([np.asarray(x, np.float64).ravel() for x in leaves]) if leaves else np.zeros(0)
  a = vlib.arr(v)
  return dict(v=a['v'], ok=a['ok'], e='', struct=str(td) + ' '.join('%s%s' % (x.dtype, tuple(x.shape)) for x in leaves))


def tree_call(fn):
  r, o = vlib.call(fn, tree_json)
  if r is None:
    o = dict(v=[], ok=False, e=o['e'], struct='')
  return r, o


def reference(f, u0, t, steps):
  """A fine classical integration in plain numpy (independent of the code under test)."""
  u, h = np.array(u0, np.float64), t / steps
  for _ in range(steps):
    k1 = f(u); k2 = f(u + h / 2 * k1); k3 = f(u + h / 2 * k2); k4 = f(u + h * k3)
    u = u + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
  return u


def slope(make_step, f, u0, t, n):
  """Observed order: log2 of the error ratio when the step is halved."""
  ref = reference(f, u0, t, 1024)
  errs = []
  for m in (n, 2 * n):
    step = make_step(t / m)
    u = np.asarray(u0)
    for _ in range(m):
      u = step(u)
    errs.append(float(np.max(np.abs(np.asarray(u) - ref))))
  if errs[1] < 1e-13:
    return 9.0
  return float(np.log2(errs[0] / errs[1]))
