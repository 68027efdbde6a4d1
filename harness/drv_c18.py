"""C18: training and evaluation steps, metrics, input noise, preprocessing."""
import functools
import itertools
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, arr, fx
import jax
import jax.numpy as jnp
from jax_cfd.ml import train_utils as tu, metrics as mt, model_utils as mu

KINDS = ['train', 'metric', 'train', 'noise', 'train', 'reduce', 'stream', 'corr']


def sessions(seed, tier):
  return [dict(seed=seed, i=i) for i in range(400 if tier == 'quick' else 6000)]


def A(x):
  return dict(arr(x), e='')


def num(x):
  return dict(e='', v=fx(x), scalar=bool(np.ndim(x) == 0))


def run(spec):
  r = rng_for(spec['seed'], 'c18', spec['i'])
  return globals()['do_' + KINDS[spec['i'] % len(KINDS)]](r, spec)


def os_json(os):
  f = lambda q: dict(a=fx(q['a']), b=[fx(z) for z in np.asarray(q['b'])])
  return dict(p=f(os['p']), m=f(os['m']))


_HIST = []


def history(spec, r):
  if not _HIST:
    full = [g['h'] for g in vlib.gen_lines(spec['seed'], 10 ** 9, 'c18')]
    _HIST.append([h for h in full if len(h) >= 5])
  return r.choice(_HIST[0])


def do_train(r, spec):
  """Replays a history generated by TLC from MC_C18."""
  h = history(spec, r)
  nc = r.randint(1, 2)
  shape = (r.randint(1, 3), r.randint(1, 2)) + tuple(r.randint(1, 3) for _ in range(r.randint(0, 1)))
  batches = [tuple(dyarr(r, shape, -1, 1) for _ in range(nc)) for _ in range(3)]
  scale = r.choice([1., .5])
  n = r.choice([None, 1, shape[0]])
  params = dict(a=jnp.asarray(dy(r, -1, 1)), b=jnp.asarray([dy(r, -1, 1) for _ in range(nc)]))

  def traj(p, target):
    pred = tuple(p['a'] * t + p['b'][c] for c, t in enumerate(target))
    return pred, pred

  loss_fn = functools.partial(mt.l2_loss_cumulative, n=n, scale=scale)
  lag = tu.loss_and_gradient(traj, loss_fn)

  def update(step, g, os):
    lr = jnp.where(step % 2 == 0, 1 / 64, 1 / 128)
    m = jax.tree.map(lambda a, b: a / 2 + b, os['m'], g)
    return dict(p=jax.tree.map(lambda a, b: a - lr * b, os['p'], m), m=m)

  step_fn = tu.train_step(lag, update, lambda os: os['p'])
  if r.random() < .25:
    step_fn = jax.jit(step_fn)
  metrics = dict(total=loss_fn, first=functools.partial(mt.l2_loss_single_step, n=0))
  ev_fn = tu.eval_batch(traj, metrics)
  if r.random() < .25:
    ev_fn = jax.jit(ev_fn)
  state = (r.choice([0, 1, 7]), dict(p=params, m=jax.tree.map(jnp.zeros_like, params)))
  saved = state
  ev = [dict(op='new', k='new', B=[[arr(c) for c in b] for b in batches], stop=shape[0] if n is None else n, scale=fx(scale),
             step=int(state[0]), os=os_json(state[1]))]
  for o in h:
    if o['op'] == 'mean' and o['b'] and r.random() < .4:   # a longer stream
      o = dict(o, b=(list(o['b']) * 12)[:r.choice([5, 6, 8, 11])])
    B = [batches[i - 1] for i in o['b']]
    if o['op'] == 'train':
      res, out = vlib.call(lambda: step_fn(state, B[0]),
                           lambda z: dict(e='', step=int(z[0][0]), os=os_json(z[0][1]), loss=fx(z[1])))
      ev.append(dict(op='train', k='train', b=o['b'], out=out))
      if res is None:
        break
      state = res[0]
    elif o['op'] in ('eval', 'mean'):
      mj = lambda z: dict(e='', m={k: fx(v) for k, v in z.items()}, keys=sorted(z))
      p = state[1]['p']
      if o['op'] == 'eval':
        _, out = vlib.call(lambda: ev_fn(p, B[0]), mj)
      else:
        it = r.choice([B, iter(B), (b for b in B)])
        _, out = vlib.call(lambda: tu.streaming_mean(it, functools.partial(ev_fn, p)), mj)
      ev.append(dict(op=o['op'], k='%s over %d batches' % (o['op'], len(B)), b=o['b'], out=out))
    elif o['op'] == 'save':
      saved = state
      ev.append(dict(op='save', k='save'))
    else:
      state = saved
      ev.append(dict(op='restore', k='restore'))
  return ev


def fields(r, shape, nc, nz=False):
  xs = [dyarr(r, shape, -1, 1) for _ in range(nc)]
  if nz:
    xs = [np.where(np.abs(x) < .1, .25, x) for x in xs]
  return tuple(jnp.asarray(x) for x in xs)


def sizes(r, nd):
  """Small sizes, now and then one longer axis."""
  shape = [r.randint(1, 3) for _ in range(nd)]
  if r.random() < .2:
    shape[r.randrange(nd)] = r.randint(4, 9)
  return tuple(shape)


def do_metric(r, spec):
  ev = []
  for _ in range(3):
    nd = r.randint(1, 4)
    shape = sizes(r, nd)
    nc = r.randint(1, 3)
    xs, ys = fields(r, shape, nc), fields(r, shape, nc)
    ax = r.randrange(-nd, nd)
    T = shape[ax]
    scale = r.choice([1, .5, 2.])
    cum = r.random() < .5
    n = r.choice([None, 0, 1, 2, T, T + 1, -1]) if cum else r.randrange(-T, T)
    fn = mt.l2_loss_cumulative if cum else mt.l2_loss_single_step
    kw = dict(n=n, scale=scale, time_axis=ax)
    if ax == 0 and r.random() < .5:
      del kw['time_axis']
    if scale == 1 and r.random() < .5:
      del kw['scale']
    if n is None and r.random() < .5:
      del kw['n']
    f = functools.partial(fn, **kw)
    _, out = vlib.call(lambda: (jax.jit(f) if r.random() < .2 else f)(xs, ys), num)
    stop = 0
    if cum:
      stop = T if n is None else min(n, T) if n >= 0 else max(T + n, 0)
    ev.append(dict(op='l2', k='%s n %s axis %d of %s' % ('cumulative' if cum else 'single', n, ax, shape), cum=cum,
                   xs=[arr(x) for x in xs], ys=[arr(y) for y in ys], n=0 if n is None else n, stop=stop, scale=fx(scale),
                   ax=(ax % nd) + 1, out=out))
  return ev


def do_corr(r, spec):
  ev = []
  for _ in range(2):
    nd = r.randint(3, 4)
    shape = sizes(r, nd)
    nc = r.randint(1, 2)
    xs, ys = fields(r, shape, nc, True), fields(r, shape, nc, True)
    if r.random() < .3:   # every example scaled by its own positive factor
      ys = xs
    tax, bax = (0, 1) if r.random() < .5 else r.sample(range(nd), 2)
    if r.random() < .4:
      f = np.ones(shape)
      idx = np.indices(shape)[bax]
      f = 2. ** -idx
      ys = tuple(y * f for y in ys)
    n = r.randrange(shape[tax])
    kw = {} if (tax, bax) == (0, 1) else dict(time_axis=tax, batch_axis=bax)
    _, out = vlib.call(lambda: mt.correlation_single_step(xs, ys, n, **kw), num)
    ev.append(dict(op='corr', k='correlation of %s, time %d batch %d' % (shape, tax, bax), xs=[arr(x) for x in xs], ys=[arr(y) for y in ys],
                   n=n, tax=tax + 1, bax=bax + 1, out=out))
  return ev


def do_reduce(r, spec):
  ev = []
  for _ in range(2):
    nd = r.randint(2, 3)
    shape = sizes(r, nd)
    nc = r.randint(1, 2)
    xs, ys = fields(r, shape, nc), fields(r, shape, nc)
    b = r.randrange(nd)
    metric = functools.partial(mt.l2_loss_cumulative, scale=1.)
    mean = r.random() < .5
    which = r.choice(['local', 'local', 'dist', 'custom'])
    if which == 'local':
      f = (mt.local_mean if mean else mt.local_sum)(metric, **({} if b == 0 and r.random() < .5 else dict(batch_axis=b)))
    elif which == 'custom':
      f = mt.local_reduce(metric, (lambda v, a: jnp.mean(v, axis=a)) if mean else (lambda v, a: jnp.sum(v, axis=a)), b)
    else:
      g = (mt.distributed_mean if mean else mt.distributed_sum)(metric)
      f = lambda x, y: jax.vmap(g, b, axis_name='batch')(x, y)
    _, out = vlib.call(lambda: f(xs, ys), (lambda z: dict(e='', v=[fx(q) for q in np.ravel(z)], n=int(np.size(z)), d=int(np.ndim(z)))))
    ev.append(dict(op='reduce', k='%s %s over axis %d of %s' % (which, 'mean' if mean else 'sum', b, shape), xs=[arr(x) for x in xs],
                   ys=[arr(y) for y in ys], b=b + 1, mean=mean, dist=which == 'dist', out=out))
  return ev


def do_noise(r, spec):
  ev = []
  B, T = r.choice([1, 2, 3, 1, 2, 3, 6]), r.choice([1, 2, 3, 1, 2, 3, 5])
  rest = tuple(r.randint(2, 4) for _ in range(r.randint(1, 2)))
  nl = r.randint(1, 3)
  leaves = [jnp.asarray(dyarr(r, (B, T) + rest, -1, 1)) for _ in range(nl)]
  tree = r.choice(['tuple', 'dict', 'nested'])
  batch = (tuple(leaves) if tree == 'tuple' else {'k%d' % i: x for i, x in enumerate(leaves)} if tree == 'dict'
           else (leaves[0], {'r': tuple(leaves[1:])}))
  scale = r.choice([.5, 1., .25, 0., .01])   # the last is the stated scale
  key = jax.random.PRNGKey(r.randint(0, 1000))
  key2 = jax.random.PRNGKey(r.randint(1001, 2000))
  f = lambda b, k, s: tu.add_noise_to_input_frame(b, k, other=1, **({} if s == .01 else dict(scale=s)))
  lv = lambda z: dict(e='', ls=[arr(x) for x in jax.tree.leaves(z)], same=jax.tree.structure(z) == jax.tree.structure(batch))
  _, o1 = vlib.call(lambda: f(batch, key, scale), lv)
  _, o2 = vlib.call(lambda: f(batch, key, scale), lv)
  _, o3 = vlib.call(lambda: f(batch, key2, scale), lv)
  _, o4 = vlib.call(lambda: f(batch, key, 2 * scale), lv)
  _, o5 = vlib.call(lambda: f(jax.tree.map(lambda x: x + 1., batch), key, scale), lv)
  _, o0 = vlib.call(lambda: tu.identity(batch, key), lv)
  return [dict(op='noise', k='input noise scale %s on %d leaves %s' % (scale, nl, (B, T) + rest), xs=[arr(x) for x in leaves], scale=fx(scale),
               one=o1, again=o2, other=o3, double=o4, shifted=o5),
          dict(op='ident', k='identity preprocessing', xs=[arr(x) for x in leaves], out=o0)]


def do_stream(r, spec):
  """Preprocessing streams and trajectory decorators."""
  ev = []
  nb = r.randint(0, 4) if r.random() < .8 else r.randint(5, 12)
  nk = r.choice([nb, nb, nb + 2, max(nb - 1, 0)])
  data = [(dyarr(r, (2,), -2, 2),) for _ in range(nb)]
  keys = [np.array([float(j + 1)]) for j in range(nk)]
  take = r.choice([None, 1, 2, max(nb - 1, 1)])

  def go():
    g = tu.preprocess(iter(data), iter(keys), lambda b, k: (b[0] * 2. + k[0], b[0]))
    return list(g if take is None else itertools.islice(g, take))
  _, out = vlib.call(go, lambda z: dict(e='', q=[[arr(x) for x in b] for b in z]))
  ev.append(dict(op='preprocess', k='preprocess %d batches, %d keys' % (nb, nk), data=[arr(b[0]) for b in data], keys=[fx(k[0]) for k in keys],
                 take=99 if take is None else take, out=out))
  # decorators
  nd = r.randint(1, 3)
  shape = tuple(r.randint(2, 4) for _ in range(nd))
  ax = r.randrange(-nd, nd)
  n = r.randint(0, shape[ax])
  x = [dyarr(r, shape, -2, 2) for _ in range(2)]
  tree = (x[0], {'q': x[1]})
  f = lambda t, s: jax.tree.map(lambda a: a * s, t)
  kw = {} if ax == 0 else dict(time_axis=ax)
  _, out = vlib.call(lambda: mu.with_split_input(f, n, **kw)(tree, 2.), lambda z: dict(e='', ls=[arr(a) for a in jax.tree.leaves(z)]))
  ev.append(dict(op='split', k='first %d of axis %d of %s' % (n, ax, shape), xs=[arr(a) for a in x], ax=(ax % nd) + 1, n=n, c=fx(2.), out=out))
  tr = lambda t, s: (jax.tree.map(lambda a: a + 1., t), jax.tree.map(lambda a: a * s, t))
  _, out = vlib.call(lambda: mu.with_input_included(tr, **kw)(tree, 3.),
                     lambda z: dict(e='', fin=[arr(a) for a in jax.tree.leaves(z[0])], ls=[arr(a) for a in jax.tree.leaves(z[1])]))
  ev.append(dict(op='include', k='input included along axis %d of %s' % (ax, shape), xs=[arr(a) for a in x], ax=(ax % nd) + 1, c=fx(3.), out=out))
  _, out = vlib.call(lambda: mu.with_post_processing(mu.with_preprocessing(tr, lambda t: jax.tree.map(lambda a: a - 1., t)),
                                                      lambda a, b: (b, a))(tree, 2.),
                     lambda z: dict(e='', ls=[arr(a) for a in jax.tree.leaves(z[0])], fin=[arr(a) for a in jax.tree.leaves(z[1])]))
  ev.append(dict(op='wrap', k='pre and post processing', xs=[arr(a) for a in x], out=out))
  return ev
