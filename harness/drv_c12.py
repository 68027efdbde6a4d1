"""C12: repeated application, trajectories and decoded trajectories."""
import functools
import numpy as np
import vlib
from vlib import rng_for
import jax
import jax.numpy as jnp
import haiku as hk
from jax_cfd.base import funcutils, grids
from jax_cfd.ml import model_builder as mb, model_utils as mu

M = 97


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(200 if tier == 'quick' else 3000)]


class Dyn:
  """The toy dynamics on any pytree of int32 arrays."""

  def __init__(self, r):
    self.p = dict(a=r.randint(0, 9), b=r.randint(0, 9), c=r.randint(0, 9), q=r.randint(0, 3))

  def flat(self, t):
    return jnp.concatenate([x.reshape(-1) for x in jax.tree.leaves(t)])

  def un(self, t, v):
    leaves, td = jax.tree.flatten(t)
    cuts = np.cumsum([0] + [x.size for x in leaves])
    return td.unflatten([v[a:b].reshape(x.shape) for a, b, x in zip(cuts, cuts[1:], leaves)])

  def step(self, t):
    v = self.flat(t)
    y = jnp.roll(v, -1)
    p = self.p
    return self.un(t, (p['a'] * v + p['b'] * y + p['c'] + p['q'] * v * y) % M)

  def post(self, kind):
    if kind == 'id':
      return None
    if kind == 'affine':
      return lambda t: jax.tree.map(lambda x: (3 * x + 1) % M, t)
    if kind == 'first':
      return lambda t: self.flat(t)[0]
    return lambda t: dict(total=self.flat(t).sum() % M)


def new_state(r):
  n = r.randint(1, 4)
  v = jnp.asarray([r.randrange(M) for _ in range(n)], jnp.int32)
  k = r.choice(['vec', 'tuple', 'dict', 'mat', 'nest'])
  if k == 'tuple' and n > 1:
    return (v[:1], v[1:])
  if k == 'dict' and n > 1:
    return dict(a=v[0], b=v[1:])
  if k == 'mat' and n == 4:
    return v.reshape(2, 2)
  if k == 'nest' and n > 2:
    return [(v[0], dict(z=v[1:2].reshape(1, 1))), v[2:]]
  return v


def tj(t):
  leaves, td = jax.tree.flatten(t)
  return dict(v=[int(x) for a in leaves for x in np.asarray(a).ravel()], e='',
              struct=str(td) + ' '.join('%s%s' % (a.dtype, tuple(a.shape)) for a in leaves))


def frames(ys, n):
  leaves = jax.tree.leaves(ys)
  if any(a.shape[:1] != (len(leaves[0]),) for a in leaves):
    return [[-1]]
  return [[int(x) for a in leaves for x in np.asarray(a[j]).ravel()] for j in range(len(leaves[0]))] if leaves else []


class Model(mb.DynamicalSystem):

  def __init__(self, dyn, name=None):
    super().__init__(grids.Grid((4,), step=1.), .1, None, name=name)
    self.dyn = dyn

  def encode(self, x):
    return jax.tree.map(lambda a: (a[-1] + 1) % M, x)

  def decode(self, x):
    return jax.tree.map(lambda a: (a + 5) % M, x)

  def advance(self, x):
    return self.dyn.step(x)


def in_haiku(fn):
  f = hk.transform(fn)
  return f.apply(f.init(None), None)


def run(spec):
  r = rng_for(spec['seed'], 'c12', spec['i'])
  dyn = Dyn(r)
  x = new_state(r)
  ev = [dict(op='new', k='state', x=tj(x), p=dyn.p)]
  bad = dict(v=[], struct='')
  for _ in range(r.randint(2, 5)):
    kind = r.choice(['run', 'run', 'traj', 'traj', 'mtraj', 'mtraj', 'once', 'decoded'])
    jit = r.random() < .25
    J = jax.jit if jit else (lambda f: f)
    if kind == 'run':
      via = r.choice(['repeated', 'nested', 'model repeated', 'by hand then repeated'])
      a, b = r.randint(0, 5), r.randint(0, 4)
      if r.random() < .12:   # now and then a long run
        a, b = r.choice([(r.randint(6, 70), 1), (r.randint(2, 12), r.randint(5, 12))])
      if via == 'repeated':
        n, fn = a, lambda: J(funcutils.repeated(dyn.step, a))(x)
      elif via == 'nested':
        n, fn = a * b, lambda: J(funcutils.repeated(funcutils.repeated(dyn.step, a), b))(x)
      elif via == 'model repeated':
        n, fn = a, lambda: in_haiku(lambda: mb.repeated(dyn.step, a)(x))
      else:
        n, fn = a + 1, lambda: funcutils.repeated(dyn.step, a)(dyn.step(x))
      y, out = vlib.call(fn, tj)
      ev.append(dict(op='run', k='%s %d %d' % (via, a, b), n=n, out=out if y is not None else dict(bad, e=out['e'])))
      if y is None:
        break
      x = y
    elif kind in ('traj', 'mtraj'):
      outer, inner, start = r.randint(0 if kind == 'traj' else 1, 5), r.randint(1, 4), r.random() < .5
      if r.random() < .12:
        outer, inner = r.choice([(r.randint(6, 40), 1), (r.randint(2, 5), r.randint(5, 30)), (r.randint(6, 12), r.randint(5, 9))])
      post = r.choice(['id', 'affine', 'first', 'sum'])
      pf = dyn.post(post)
      ck = r.random() < .4
      if kind == 'traj':
        via = 'funcutils inner %d' % inner
        step = funcutils.repeated(dyn.step, inner) if inner > 1 else dyn.step
        kw = {} if pf is None else dict(post_process=pf)
        if start or r.random() < .5:
          kw['start_with_input'] = start
        fn = lambda: J(funcutils.trajectory(step, outer, **kw))(x)
      elif r.random() < .5:
        via = 'trajectory_from_step inner %d checkpoint %s' % (inner, ck)
        fn = lambda: in_haiku(lambda: mb.trajectory_from_step(dyn.step, outer, inner, start_with_input=start,
                                                              post_process_fn=pf or (lambda t: t), set_checkpoint=ck)(x))
      else:
        via = 'model trajectory inner %d' % inner
        kw = {} if pf is None else dict(post_process_fn=pf)
        if start or r.random() < .5:
          kw['start_with_input'] = start
        args = (outer,) if inner == 1 and r.random() < .5 else (outer, inner)
        fn = lambda: in_haiku(lambda: Model(dyn).trajectory(x, *args, **kw))
      y, out = vlib.call(fn, lambda t: dict(tj(t[0]), fr=frames(t[1], outer)))
      fr = out.pop('fr', [])
      ev.append(dict(op='traj', k='%s, %d frames, start_with_input=%s, post %s' % (via, outer, start, post), outer=outer, inner=inner,
                     start=start, post=post, frames=fr, out=out if y is not None else dict(bad, e=out['e'])))
      if y is None:
        break
      x = y[0]
    elif kind == 'once':
      n = r.randint(1, 4)
      calls = [0]

      def counted(c, _):
        calls[0] += 1
        y = dyn.step(c)
        return y, y
      xs = r.choice([None, 'arr'])

      def go():
        with funcutils.init_context():
          nest = r.random() < .3
          if nest:
            with funcutils.init_context():
              pass
          if xs is None:
            return funcutils.scan(counted, x, None, length=n)
          return funcutils.scan(counted, x, (jnp.zeros((n, 2)), jnp.ones(n)))
      y, out = vlib.call(go, lambda t: dict(tj(t[0]), fr=frames(t[1], n)))
      fr = out.pop('fr', [])
      ev.append(dict(op='once', k='scan in init_context, length %d, %s' % (n, xs), n=n, nested=False, calls=calls[0], frames=fr,
                     out=out if y is not None else dict(bad, e=out['e'])))
      # an exception inside the context must not leave it open
      try:
        with funcutils.init_context():
          raise KeyError
      except KeyError:
        pass
      y, out = vlib.call(lambda: funcutils.repeated(dyn.step, 3)(x), tj)
      ev.append(dict(op='run', k='repeated after init_context', n=3, out=out if y is not None else dict(bad, e=out['e'])))
      if y is None:
        break
      x = y
    else:
      if len({a.ndim for a in jax.tree.leaves(x)}) != 1:   # leaves of data must share their number of dimensions
        continue
      T, outer, inner = r.randint(1, 4), r.randint(1, 3), r.randint(1, 3)
      init = r.randint(1, T)
      fin = [jax.tree.map(lambda a: jnp.asarray(np.array([r.randrange(M) for _ in range(a.size)]).reshape(a.shape), jnp.int32), x) for _ in range(T)]
      xs = jax.tree.map(lambda *a: jnp.stack(a), *fin)
      fn = lambda: in_haiku(lambda: mu.decoded_trajectory_with_inputs(Model(dyn), init)(xs, outer, inner))
      y, out = vlib.call(fn, lambda t: dict(tj(t[0]), fr=frames(t[1], 0)))
      fr = out.pop('fr', [])
      ev.append(dict(op='decoded', k='decoded trajectory, %d of %d frames, %d x %d' % (init, T, outer, inner), init=init, outer=outer, inner=inner,
                     frames_in=[tj(f)['v'] for f in fin], frames=fr, out=out if y is not None else dict(bad, e=out['e'])))
  return ev
