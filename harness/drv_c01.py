"""C01: histories of pad / pad_all / shift / trim on one field."""
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, bcj
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries

P, D, N = 'periodic', 'dirichlet', 'neumann'


def rand_grid(r, nd=None, nmin=2, nmax=5):
  nd = nd or r.choice([1, 1, 2, 2, 2, 3])
  if nd == 3:
    nmax = min(nmax, 4)
  shape = tuple(r.randint(nmin, nmax) for _ in range(nd))
  if nmax >= 4 and r.random() < .08:   # now and then a long, thin domain
    ax = r.randrange(nd)
    shape = tuple(r.randint(9, 20 if nd < 3 else 10) if d == ax else max(nmin, min(n, 3)) for d, n in enumerate(shape))
  if r.random() < .05 and nmin <= 2:   # a single cell along one axis
    ax = r.randrange(nd)
    shape = tuple(1 if d == ax else n for d, n in enumerate(shape))
  steps = [r.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(nd)]
  lo = [r.choice([0.0, 0.0, -1.0, 0.5]) for _ in range(nd)]
  if all(x == 0 for x in lo) and r.random() < .5:
    return grids.Grid(shape, step=tuple(steps))
  return grids.Grid(shape, domain=tuple(
      (l, l + n * h) for l, n, h in zip(lo, shape, steps)))


def rand_bc(r, nd, types=None, values=True):
  ts, vs = [], []
  homog = r.random() < 0.3
  for ax in range(nd):
    t = types[ax] if types else r.choice(
        [(P, P), (P, P), (D, D), (D, D), (N, N), (D, N), (N, D)])
    ts.append(t)
    if t[0] == P:
      vs.append((None, None) if r.random() < .5 else (0.0, 0.0))
    else:
      vs.append((0.0, 0.0) if homog else (dy(r), dy(r)))
  if homog and r.random() < .5:
    return boundaries.HomogeneousBoundaryConditions(ts)
  return boundaries.ConstantBoundaryConditions(ts, vs)


def rand_location(r, bc, grid):
  """Offset and data shape such that the field holds the whole interior."""
  off, shape = [], []
  for ax, n in enumerate(grid.shape):
    t = bc.types[ax]
    if N in t:
      off.append(0.5); shape.append(n)
    elif t[0] == P:
      off.append(r.choice([0.0, 0.5, 1.0, 0.5, -0.5, -1.0, 1.5, 2.0])); shape.append(n)
    else:
      k = r.choice(['c', 'lo', 'hi', 'in'])
      if k == 'in' and n < 3:
        k = 'c'
      off.append(dict(c=.5, lo=0.0, hi=1.0)[k] if k != 'in' else 1.0)
      shape.append(n - 1 if k == 'in' else n)
  return tuple(off), tuple(shape)


def sessions(seed, tier):
  n = 420 if tier == 'quick' else 6000
  gen = vlib.gen_lines(seed, 700 if tier == 'quick' else 8000)
  return [dict(gen=g) for g in gen] + [dict(seed=seed, i=i) for i in range(n)]


UNTYPE = dict(P=P, D=D, N=N)


def run_generated(g):
  """Replays one history that TLC generated from the specification."""
  f = g['f']
  n = f['g']['n'][0]
  grid = grids.Grid((n,), step=vlib.unfx(f['g']['h'][0]))
  t = tuple(UNTYPE[x] for x in f['bc']['t'][0])
  b = tuple(vlib.unfx(x) for x in f['bc']['b'][0])
  bc = boundaries.ConstantBoundaryConditions((t,), (b,))
  off = f['o'][0] / 4
  u = grids.GridArray(jnp.asarray([vlib.unfx(x) for x in f['v']]), (off,), grid)
  key = '%s@%g' % (''.join(f['bc']['t'][0]), off)
  ev = [dict(op='new', k=key, f=field(u, bc))]
  for o in g['h']:
    w, mode = o['w'], o['mode']
    fn = dict(pad=lambda: bc.pad(u, w, 0, mode), trim=lambda: bc.trim(u, w, 0),
              shift=lambda: bc.shift(u, w, 0, mode))[o['op']]
    res, out = vlib.call(fn)
    ev.append(dict(op=o['op'], k='%s %s %s w=%s' % (o['op'], mode, key, w), ax=1, w=w, mode=mode, out=out))
    if res is None:
      break
    u = res
  return ev


def interior_count(u, ax):
  n = u.grid.shape[ax]
  return n - 1 if float(u.offset[ax]) % 1 == 0 else n


def run(spec):
  if 'gen' in spec:
    return run_generated(spec['gen'])
  r = rng_for(spec['seed'], 'c01', spec['i'])
  grid = rand_grid(r)
  nd = grid.ndim
  bc = rand_bc(r, nd)
  off, shape = rand_location(r, bc, grid)
  dtype = np.float64 if r.random() < .6 else np.float32
  u = grids.GridArray(jnp.asarray(dyarr(r, shape, dtype=dtype)), off, grid)
  f0 = field(u, bc)
  key = ' '.join('%s@%g' % (''.join(vlib.TYPES[x] for x in t), o) for t, o in zip(bc.types, off))
  ev = [dict(op='new', k=key, f=f0)]
  use_jit = r.random() < .12
  # how far each side currently extends past the interior-bearing original
  ext = [[0, 0] for _ in range(nd)]
  for _ in range(r.randint(1, 4)):
    ax = r.randrange(nd)
    mode = r.choice(['extend', 'mirror'])
    per = bc.types[ax][0] == P
    cap = 4 if per else min(3, interior_count(u, ax))
    kind = r.choice(['pad', 'pad', 'pad2', 'padall', 'shift', 'shift', 'trim', 'values', 'refuse'])
    cur = u
    if kind == 'pad':
      side = r.choice([0, 1])
      w = r.randint(0, max(0, cap - ext[ax][side]))
      w = -w if side == 0 else w
      if mode == 'extend' and r.random() < .2:
        fn = lambda a: bc.pad(a, w, ax)
      else:
        fn = lambda a: bc.pad(a, w, ax, mode)
      e = dict(op='pad', w=w)
      if side == 0: ext[ax][0] += -w
      else: ext[ax][1] += w
    elif kind == 'pad2':
      ws = [r.randint(0, max(0, cap - ext[ax][0])), r.randint(0, max(0, cap - ext[ax][1]))]
      kw = {} if mode == 'extend' and r.random() < .3 else dict(mode=mode)
      fn = lambda a: bc.pad(a, tuple(ws), ax, **kw)
      e = dict(op='pad2', w2=ws)
      ext[ax][0] += ws[0]; ext[ax][1] += ws[1]
    elif kind == 'padall':
      ws = []
      for a_ in range(nd):
        c_ = 3 if bc.types[a_][0] == P else min(2, interior_count(u, a_))
        w_ = [r.randint(0, max(0, c_ - ext[a_][0])), r.randint(0, max(0, c_ - ext[a_][1]))]
        ws.append(w_); ext[a_][0] += w_[0]; ext[a_][1] += w_[1]
      args = () if mode == 'extend' and r.random() < .3 else (mode,)
      fn = lambda a: bc.pad_all(a, tuple(tuple(w) for w in ws), *args)
      e = dict(op='padall', ws=ws)
    elif kind == 'shift':
      # a shift drops |w| values on the far side; it ends the history
      m = min(cap, 3)
      room = [m - ext[ax][0], m - ext[ax][1]]
      w = r.randint(-max(0, room[0]), max(0, room[1]))
      args = () if mode == 'extend' and r.random() < .3 else (mode,)
      if r.random() < .5:
        fn = lambda a: bc.shift(a, w, ax, *args)
      else:
        fn = lambda a: grids.GridVariable(a, bc).shift(w, ax, *args)
      e = dict(op='shift', w=w)
    elif kind == 'trim':
      side = r.choice([0, 1])
      w = r.randint(0, ext[ax][side])
      ext[ax][side] -= w
      w = -w if side == 0 else w
      fn = lambda a: bc.trim(a, w, ax)
      e = dict(op='trim', w=w)
    elif kind == 'values':
      none = bc.bc_values[ax][0] is None
      def proj(x):
        return x
      try:
        out = bc.values(ax, grid)
        out = [dict(s=[0], v=[], ok=True, e='None') if o is None else dict(vlib.arr(o), e='') for o in out]
      except Exception as ex:
        out = [vlib.err(ex)] * 2
      ev.append(dict(op='values', k='values ' + bc.types[ax][0], ax=ax + 1, none=none, out=out))
      continue
    else:  # a field that lacks interior values must be refused
      if shape[ax] < 2 or any(x != [0, 0] for x in ext):
        continue
      cut = grids.GridArray(u.data[tuple(slice(0, 1) if a_ == ax else slice(None) for a_ in range(nd))], off, grid)
      lacking = shape[ax] > (3 if off[ax] == 1 else 2)
      if not lacking:
        continue
      ev.append(dict(op='new', k=key, f=field(cut, bc)))
      w = r.choice([-1, 1])
      _, o = vlib.call(lambda: bc.pad(cut, w, ax, mode))
      ev.append(dict(op='pad', k='refuse ' + key, ax=ax + 1, w=w, mode=mode, out=o))
      break
    g = jax.jit(fn) if use_jit else fn
    res, o = vlib.call(lambda: g(cur))
    e.update(k='%s %s %s w=%s' % (e['op'], mode, key, e.get('w', e.get('w2', e.get('ws')))),
             ax=ax + 1, mode=mode, out=o)
    ev.append(e)
    if res is None or (kind == 'shift' and not per):
      break
    u = res
  return ev
