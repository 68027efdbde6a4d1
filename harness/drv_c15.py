"""C15: array utilities on trees."""
import collections
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import array_utils as au

Pair = collections.namedtuple('Pair', 'left right')


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(700 if tier == 'quick' else 9000)]


def leaf(a):
  d = arr(a)
  d['ty'] = str(a.dtype)
  d['e'] = ''
  return d


def build(r, leaves):
  """A tree with the given leaves."""
  n = len(leaves)
  c = r.random()
  if n == 1 and c < .5:
    return leaves[0]
  if c < .25:
    return tuple(leaves)
  if c < .5:
    return list(leaves)
  if c < .75:
    return {chr(97 + 7 * i % 26): x for i, x in enumerate(leaves)}
  k = r.randint(1, n)
  if n == 2:
    return Pair(leaves[0], (leaves[1], None))
  return (leaves[:k], {'z': tuple(leaves[k:]), 'e': ()})


def some_tree(r, nd=None, mixed=False, axis=None, size=None):
  n = r.randint(1, 3)
  nd = nd or r.choice([1, 2, 2, 3])
  out = []
  for k in range(n):
    d = r.choice([1, 2, 3]) if mixed else nd
    if axis is not None and mixed:
      d = max(d, axis + 1 if axis >= 0 else -axis)
    shape = [r.randint(1, 4) for _ in range(d)]
    if axis is not None and size is not None:
      shape[axis] = size
    a = dyarr(r, tuple(shape), dtype=r.choice([np.float64, np.float64, np.float32]))
    if r.random() < .15:
      a = a.astype(np.int32)
    out.append(jnp.asarray(a) if r.random() < .7 else a)
  return build(r, out)


def js(tree):
  return [leaf(x) for x in jax.tree.leaves(tree)]


def st(a, b):
  return jax.tree.structure(a) == jax.tree.structure(b)


def run(spec):
  i = spec['i']
  r = rng_for(spec['seed'], 'c15', i)
  kind = ['slice', 'interp', 'split', 'splitaxis', 'interp', 'blocks', 'qr'][i % 7]
  ev = []
  no = lambda x: dict(e='')
  if kind == 'slice':
    mixed = r.random() < .3
    ax = r.choice([0, 1, -1, -2, 2, -3, 0, -1])
    nd = r.randint(max(1, ax + 1 if ax >= 0 else -ax), 3)
    isint = r.random() < .4
    size = r.randint(1, 5)
    t = some_tree(r, nd, mixed, ax, size)
    kw = dict(expect_same_dims=False) if mixed else {}
    part = lambda: r.choice([None, None, r.randint(-size - 1, size + 1)])
    idx = r.randint(-size, size - 1)
    sl = (part(), part(), r.choice([None, None, 1, 2, 3, -1, -2]))
    arg = idx if isint else slice(*sl)
    o, out = vlib.call(lambda: au.slice_along_axis(t, ax, arg, **kw), no)
    ev.append(dict(op='slice', k='slice axis %d %s' % (ax, 'int' if isint else 'slice'), tree=js(t), ax=ax, isint=isint, idx=idx,
                   sl=[[] if x is None else [x] for x in sl], out=out, same=o is None or st(o, t), outs=js(o) if o is not None else []))
    if mixed and len({x.ndim for x in jax.tree.leaves(t)}) > 1:
      _, out = vlib.call(lambda: au.slice_along_axis(t, ax, arg), no)
      ev.append(dict(op='refuse', k='slice different ranks', out=out))
    if not mixed and r.random() < .2:
      _, out = vlib.call(lambda: au.slice_along_axis(t, r.choice([nd, nd + 1, -nd - 1]), arg), no)
      ev.append(dict(op='refuse', k='slice axis out of range', out=out))
    return ev
  if kind == 'split':
    ax = r.choice([0, 1, -1, -2, 2])
    nd = r.randint(max(1, ax + 1 if ax >= 0 else -ax), 3)
    size = r.randint(1, 5)
    mixed = r.random() < .3
    t = some_tree(r, nd, mixed, ax, size)
    at = r.randint(-size, size)
    kw = dict(expect_same_dims=False) if mixed else {}
    o, out = vlib.call(lambda: au.split_along_axis(t, at, ax, **kw), no)
    ev.append(dict(op='split', k='split axis %d' % ax, tree=js(t), ax=ax, at=at, out=out,
                   same=o is None or (len(o) == 2 and st(o[0], t) and st(o[1], t)),
                   outs=js(o[0]) if o else [], outs2=js(o[1]) if o else []))
    if mixed and len({x.ndim for x in jax.tree.leaves(t)}) > 1:
      _, out2 = vlib.call(lambda: au.split_along_axis(t, at, ax), no)
      ev.append(dict(op='refuse', k='split different ranks', out=out2))
    if o:
      o2, out = vlib.call(lambda: au.concat_along_axis(o, ax), no)
      ev.append(dict(op='join', k='join axis %d' % ax, tree=js(t), out=out, same=o2 is None or st(o2, t), outs=js(o2) if o2 is not None else []))
    return ev
  if kind == 'splitaxis':
    ax = r.choice([0, 1, -1, -2, 2])
    nd = r.randint(max(1, ax + 1 if ax >= 0 else -ax), 3)
    size = r.randint(1, 4)
    mixed = r.random() < .25
    t = some_tree(r, nd, mixed, ax, size)
    keep = r.random() < .5
    args = (keep,) if keep or r.random() < .5 else ()
    o, out = vlib.call(lambda: au.split_axis(t, ax, *args), no)
    same = o is None or all(st(x, t) for x in o)
    ev.append(dict(op='splitaxis', k='split_axis %d keep=%s' % (ax, keep), tree=js(t), ax=ax, keep=keep, out=out, same=same,
                   parts=[js(x) for x in o] if o is not None else []))
    if o and keep:
      o2, out = vlib.call(lambda: au.concat_along_axis(list(o), ax), no)
      ev.append(dict(op='join', k='join parts axis %d' % ax, tree=js(t), out=out, same=o2 is None or st(o2, t), outs=js(o2) if o2 is not None else []))
    if r.random() < .3:
      bad = (jnp.zeros((2, 3)), jnp.zeros((2, 4)))
      _, out = vlib.call(lambda: au.split_axis(bad, r.choice([1, -1])), no)
      ev.append(dict(op='refuse', k='split_axis unequal sizes', out=out))
    return ev
  if kind == 'blocks':
    nd = r.choice([1, 2, 2, 3])
    b = [r.randint(1, 3) for _ in range(nd)]
    shape = tuple(r.randint(1, 3 if nd < 3 else 2) * k for k in b)
    f = r.choice(['sum', 'mean', 'max', 'min', 'first', 'last'])
    fn = dict(sum=jnp.sum, mean=jnp.mean, max=jnp.max, min=jnp.min, first=lambda x: x.ravel()[0], last=lambda x: x.ravel()[-1])[f]
    a = dyarr(r, shape)
    _, out = vlib.call(lambda: au.block_reduce(jnp.asarray(a) if r.random() < .6 else a, tuple(b), fn), lambda x: dict(arr(x), e=''))
    ev.append(dict(op='blocks', k='block_reduce %s %s' % (f, b), a=arr(a), b=b, f=f, out=out))
    ax = r.randrange(nd)
    if b[ax] > 1:
      bad = list(shape); bad[ax] += 1
      _, out = vlib.call(lambda: au.block_reduce(jnp.zeros(tuple(bad)), tuple(b), fn), no)
      ev.append(dict(op='refuse', k='block does not divide', out=out))
    return ev
  if kind == 'qr':
    m = r.randint(1, 5); n = r.randint(1, min(3, m))
    for _ in range(50):
      a = dyarr(r, (m, n), -2, 2)
      sv = np.linalg.svd(a, compute_uv=False)
      if sv[-1] > .4:
        break
    else:
      return []
    f32 = r.random() < .4
    x = jnp.asarray(a.astype(np.float32) if f32 else a)
    J = jax.jit if r.random() < .1 else (lambda f: f)
    o, out = vlib.call(lambda: J(au.gram_schmidt_qr)(x), no)
    z = dict(arr(np.zeros(1)))
    ev.append(dict(op='qr', k='qr %dx%d' % (m, n), a=arr(a), out=out, tol=96 if f32 else 48,
                   q=arr(o[0]) if o else z, r=arr(o[1]) if o else z))
    return ev
  # interp1d
  n = r.randint(2, 6)
  x = [dy(r, -2, 2)]
  for _ in range(n - 1):
    x.append(x[-1] + r.choice([.25, .5, 1., 2.]))
  nd = r.choice([1, 1, 2, 3])
  ax = r.randrange(nd)
  shape = tuple(n if d == ax else r.randint(1, 3) for d in range(nd))
  y = dyarr(r, shape)
  axp = ax - nd if r.random() < .4 else ax
  qs = r.choice([(), (3,), (4,), (2, 3), (1, 2), (0,)])
  def q1():
    c = r.random()
    if c < .35:
      return r.choice(x)
    if c < .5:
      return x[0] - r.randint(1, 8) / 8
    if c < .65:
      return x[-1] + r.randint(1, 8) / 8
    return x[0] + r.random() * (x[-1] - x[0]) if c < .7 else r.choice(x) + r.randint(-8, 8) / 16
  q = np.array([round(q1() * 64) / 64 for _ in range(int(np.prod(qs)))]).reshape(qs)
  mode = r.choice(['extrapolate', 'constant_extrapolate', 'fill', 'fill', 'nan'])
  fill = dy(r)
  kw = {}
  if mode in ('extrapolate', 'constant_extrapolate'):
    kw['fill_value'] = mode
  elif mode == 'fill':
    kw['fill_value'] = fill if r.random() < .6 else np.array(fill) if r.random() < .5 else jnp.asarray(fill)
  xs, ys = np.array(x), y
  if r.random() < .35:
    p = list(range(n)); r.shuffle(p)
    xs = xs[p]; ys = np.take(y, p, axis=ax)
    kw['assume_sorted'] = False
  elif r.random() < .2:
    kw['assume_sorted'] = False
  if axp != -1 or r.random() < .5:
    kw['axis'] = axp
  jit = r.random() < .15
  ff = r.random() < .2
  xa, ya = (jnp.asarray(xs), jnp.asarray(ys)) if r.random() < .6 else (xs, ys)
  if ff:
    xa, ya = jnp.asarray(xs, jnp.float32), jnp.asarray(ys, jnp.float32)
  def go():
    f = au.interp1d(xa, ya, **kw)
    return (jax.jit(f) if jit else f)(jnp.asarray(q) if r.random() < .5 else q)
  _, out = vlib.call(go, lambda z: dict(arr(z), e=''))
  ev.append(dict(op='interp', k='interp1d %s axis %d of %d%s' % (mode, axp, nd, '' if kw.get('assume_sorted', True) else ' unsorted'),
                 x=[fx(v) for v in xs], y=arr(ys), ax=axp, q=arr(q), mode='fill' if mode == 'nan' else mode,
                 fill=vlib.LIM if mode == 'nan' else fx(fill), out=out))
  if r.random() < .3:
    bad = r.choice([
        ('unknown mode', lambda: au.interp1d(xs, ys, axis=ax, fill_value='nearest')),
        ('fill not scalar', lambda: au.interp1d(xs, ys, axis=ax, fill_value=np.zeros(2))),
        ('x not 1d', lambda: au.interp1d(np.zeros((2, 2)), np.zeros(2))),
        ('one node', lambda: au.interp1d(np.zeros(1), np.zeros(1))),
        ('sizes differ', lambda: au.interp1d(np.arange(float(n + 1)), ys, axis=ax)),
        ('axis out of range', lambda: au.interp1d(xs, ys, axis=nd)),
        ('scalar y', lambda: au.interp1d(xs, np.float64(1.)))])
    _, out = vlib.call(bad[1], no)
    ev.append(dict(op='refuse', k='interp1d ' + bad[0], out=out))
  return ev
