"""C03: field arithmetic, grids, boundary constructors, pytree round trips."""
import operator
import numpy as np
import vlib
from vlib import rng_for, dy, dyarr, field, arr, gridj, bcj, offj, fx
import jax
import jax.numpy as jnp
from jax_cfd.base import grids, boundaries
from drv_c01 import rand_grid, rand_bc, P, D, N


def sessions(seed, tier):
  n = 700 if tier == 'quick' else 8000
  return [dict(seed=seed, i=i) for i in range(n)]


BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, max=np.maximum, min=np.minimum,
           gt=operator.gt, le=operator.le, eq=np.equal, fdiv=operator.floordiv, mod=np.mod)
UN = dict(neg=operator.neg, abs=abs, sq=np.square, half=lambda a: a / 2, sign=np.sign, pos=operator.pos)


def cfield(u):
  d = arr(np.asarray(u.data))
  d.update(o=offj(u.offset), g=gridj(u.grid), e='')
  if not isinstance(u, grids.GridArray):
    d['e'] = 'not-a-field'
  return d


def s_arith(r):
  nd = r.choice([1, 2, 2, 3])
  g1 = rand_grid(r, nd, 2, 3)
  shape = g1.shape
  other = r.choice(['offset', 'grid', 'none', 'none', 'none'])
  o1 = tuple(r.choice([0., .5, 1.]) for _ in range(nd))
  ev = []
  regs = {}
  jit = r.random() < .1
  for k in range(r.randint(2, 3)):
    o, g = o1, g1
    if k == 1 and other == 'offset':
      o = list(o1); a = r.randrange(nd); o[a] = {0.: .5, .5: 1., 1.: 0.}[o[a]]; o = tuple(o)
    if k == 1 and other == 'grid':
      c = r.random()
      if c < .4:
        g = grids.Grid(shape, step=tuple(h * 2 for h in g1.step))
      elif c < .7:
        g = grids.Grid(shape, domain=tuple((a + 1, b + 1) for a, b in g1.domain))
      else:
        g = grids.Grid(tuple(n + 1 for n in shape), domain=g1.domain)
    u = grids.GridArray(jnp.asarray(dyarr(r, shape)), o, g)
    regs['r%d' % k] = u
    ev.append(dict(op='new', k='new', r='r%d' % k, f=cfield(u)))
  for step in range(r.randint(2, 5)):
    nargs = r.choice([1, 2, 2, 2, 3])
    names = sorted(regs)
    args, vals = [], []
    def pick(kind=None):
      kind = kind or r.choice(['reg', 'reg', 'reg', 'scalar', 'array'])
      if kind == 'reg':
        n = r.choice(names); args.append(dict(kind='reg', r=n)); vals.append(regs[n])
      elif kind == 'scalar':
        x = dy(r); args.append(dict(kind='scalar', x=fx(x)))
        vals.append(r.choice([float, np.float64, jnp.asarray])(x))
      else:
        a = dyarr(r, shape); args.append(dict(kind='array', a=arr(a)))
        vals.append(r.choice([np.asarray, jnp.asarray])(a))
    if nargs == 1:
      fn = r.choice(sorted(UN)); f = UN[fn]; pick('reg')
    elif nargs == 2:
      fn = r.choice(sorted(BIN)); f = BIN[fn]
      if r.random() < .5: pick('reg'); pick()
      else: pick(); pick('reg')
      if fn in ('fdiv', 'mod'):
        if args[1]['kind'] == 'array':
          vals[1] = np.abs(np.asarray(vals[1])) + 1; args[1]['a'] = arr(vals[1])
        elif args[1]['kind'] == 'scalar':
          vals[1] = 2.0; args[1]['x'] = fx(2.0)
        else:
          fn = 'add'; f = BIN[fn]
    else:
      fn = 'where'
      pick('reg'); pick(); pick()
      f = lambda m, a, b: grids.where(m, a, b)
      m0 = vals[0]
      vals[0] = m0.__class__((m0.data != 0), m0.offset, m0.grid)
    def run_(*v):
      return f(*v)
    if jit and fn not in ('fdiv', 'mod') and not any(isinstance(v, (np.float64, np.ndarray)) for v in vals):
      res, out = vlib.call(lambda: jax.jit(run_)(*vals), cfield)
    else:
      res, out = vlib.call(lambda: run_(*vals), cfield)
    name = 'r%d' % r.randrange(3)
    ev.append(dict(op='arith', k='%s %s' % (fn, ','.join(a['kind'] for a in args)), fn=fn, args=args,
                   shape=list(shape), r=name, out=out))
    if res is None:
      continue
    if not out['ok'] or max([abs(v) for v in out['v']] + [0]) > 64 * vlib.ONE:
      break
    if isinstance(res, grids.GridArray) and res.data.dtype == bool:
      res = grids.GridArray(res.data.astype(float), res.offset, res.grid)
    regs[name] = res
  # variables must not take part in raw array arithmetic
  if r.random() < .5:
    bc = boundaries.periodic_boundary_conditions(nd)
    gv = grids.GridVariable(regs['r0'], bc)
    c = r.randrange(3)
    fn = [lambda: regs['r0'] + gv, lambda: grids.where(gv, regs['r0'], 0.0), lambda: gv + 1][c]
    _, o = vlib.call(fn, lambda x: dict(e='', s=[0], v=[]))
    ev.append(dict(op='refuse', k='variable-in-arithmetic %d' % c, out=o, want=['TypeError', 'ValueError']))
  if r.random() < .3:
    c = r.randrange(2)
    fn = [lambda: grids.GridVariable(regs['r0'].data, boundaries.periodic_boundary_conditions(nd)),
          lambda: grids.GridVariable(regs['r0'], boundaries.periodic_boundary_conditions(nd + 1))][c]
    _, o = vlib.call(fn, lambda x: dict(e='', s=[0], v=[]))
    ev.append(dict(op='refuse', k='bad-variable %d' % c, out=o, want=['ValueError', 'AttributeError']))
  return ev


def s_grid(r):
  nd = r.choice([1, 2, 3])
  shape = tuple(r.randint(1, 6) for _ in range(nd))
  kind = r.choice(['step', 'steps', 'domain', 'domains', 'none', 'both', 'badstep', 'baddomain', 'badpair', 'npint'])
  st = [r.choice([.25, .5, 1., 2.]) for _ in range(nd)]
  lo = [dy(r) for _ in range(nd)]
  want = dict(n=list(shape), err='')
  kw, sh = {}, shape
  if kind == 'step':
    kw = dict(step=st[0]); h = [st[0]] * nd; l0 = [0.] * nd
  elif kind in ('steps', 'npint'):
    kw = dict(step=r.choice([tuple, list])(st)); h = st; l0 = [0.] * nd
    if kind == 'npint': sh = tuple(np.int64(n) for n in shape)
  elif kind == 'domain':
    L = r.choice([1, 2.0, 4, 0.5]); kw = dict(domain=L); h = [L / n for n in shape]; l0 = [0.] * nd
  elif kind == 'domains':
    kw = dict(domain=tuple((a, a + n * x) for a, n, x in zip(lo, shape, st))); h = st; l0 = lo
  elif kind == 'none':
    h = [1.] * nd; l0 = [0.] * nd
  else:
    h = [1.] * nd; l0 = [0.] * nd
    if kind == 'both': kw = dict(step=1., domain=2.); want['err'] = 'TypeError'
    if kind == 'badstep': kw = dict(step=(1.,) * (nd + 1)); want['err'] = 'ValueError'
    if kind == 'baddomain': kw = dict(domain=((0., 1.),) * (nd + 1)); want['err'] = 'ValueError'
    if kind == 'badpair': kw = dict(domain=((0., 1., 2.),) * nd); want['err'] = 'ValueError'
  want.update(h=[fx(x) for x in h], lo=[fx(x) for x in l0], hi=[fx(a + n * x) for a, n, x in zip(l0, shape, h)])
  e = dict(op='grid', k='grid ' + kind, want=want, e='', out=dict(n=[], h=[], lo=[], hi=[], r=[]), centre=[], faces=[], ndim=0)
  try:
    g = grids.Grid(sh, **kw)
    e.update(out=gridj(g), centre=offj(g.cell_center), faces=[offj(o) for o in g.cell_faces], ndim=g.ndim)
  except Exception as ex:
    e['e'] = type(ex).__name__
  ev = [e]
  if e['e'] or want['err']:
    return ev
  off = None if r.random() < .2 else tuple(r.choice([0., .5, 1., .25]) for _ in range(nd))
  a = dict(op='axes', k='axes', g=gridj(g), off=offj(off or g.cell_center), e='')
  try:
    a['axes'] = [arr(x) for x in g.axes(off)]
    a['mesh'] = [arr(x) for x in g.mesh(off)]
    a['fn'] = cfield(g.eval_on_mesh(lambda *xs: sum((i + 1) * x for i, x in enumerate(xs)) + 1, off))
  except Exception as ex:
    a['e'] = type(ex).__name__
  ev.append(a)
  if r.random() < .5:
    _, o = vlib.call(lambda: g.axes((0.,) * (nd + 1)), lambda x: dict(e='', s=[0], v=[]))
    ev.append(dict(op='refuse', k='bad-offset-length', out=o, want=['ValueError']))
  ev.append(dict(op='freq', k='freq', g=gridj(g), fft=[arr(x) for x in g.fft_axes()],
                 rfft=[arr(x) for x in g.rfft_axes()], rmesh=[arr(x) for x in g.rfft_mesh()]))
  if r.random() < .4:
    ev.append(dict(op='masks', k='masks', g=gridj(g), masks=[arr(np.broadcast_to(m, g.shape)) for m in grids.domain_interior_masks(g)]))
  vs = tuple(jnp.asarray(dyarr(r, shape)) for _ in range(nd))
  outs = [cfield(u) for u in g.stagger(vs)]
  wants = [dict(arr(v), o=[4 if i == j else 2 for i in range(nd)], g=gridj(g), e='') for j, v in enumerate(vs)]
  ev.append(dict(op='stagger', k='stagger', outs=outs, want=wants))
  tree = dict(a=vs[0], b=(vs[-1],))
  c = g.center(tree)
  ev.append(dict(op='stagger', k='center', outs=[cfield(c['a']), cfield(c['b'][0])],
                 want=[dict(arr(v), o=[2] * nd, g=gridj(g), e='') for v in (vs[0], vs[-1])]))
  return ev


def s_tags(r):
  nd = r.choice([1, 2, 3])
  g = rand_grid(r, nd, 2, 3)
  mk = lambda o, gr=g: grids.GridArray(jnp.asarray(dyarr(r, gr.shape)), o, gr)
  offs = [tuple(r.choice([0., .5, 1., -.5, 1.5]) for _ in range(nd)) for _ in range(r.choice([1, 2, 2, 4]))]
  us = [mk(o) for o in offs]
  ev = [dict(op='meanloc', k='meanloc %d' % len(us), os=[offj(o) for o in offs], out=offj(grids.averaged_offset(*us))),
        dict(op='cvloc', k='cvloc', o=offj(offs[0]), out=[offj(o) for o in grids.control_volume_offsets(us[0])])]
  # uniqueness of offset / grid / bc
  def uniq(fn, xs, same, want, k, ret):
    e = dict(op='unique', k=k, same=same, want=want, e='', ret=False)
    try:
      e['ret'] = bool(fn(*xs) == ret)
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
  same = len(set(offs)) == 1
  uniq(grids.consistent_offset, us, same, 'InconsistentOffsetError', 'offset', offs[0])
  same_us = [mk(offs[0]) for _ in range(3)]
  uniq(grids.consistent_offset, same_us, True, '', 'offset-same', offs[0])
  g2 = grids.Grid(g.shape, domain=tuple((a, b + (1 if i == nd - 1 else 0)) for i, (a, b) in enumerate(g.domain)))
  uniq(grids.consistent_grid, [us[0], mk(offs[0], g2)], False, 'InconsistentGridError', 'grid-differs', g)
  uniq(grids.consistent_grid, us, True, '', 'grid-same', g)
  bc1, bc2 = rand_bc(r, nd), rand_bc(r, nd)
  v1, v2 = grids.GridVariable(us[0], bc1), grids.GridVariable(us[0], bc2)
  samebc = bcj(bc1) == bcj(bc2) and type(bc1) == type(bc2)
  if not samebc and bcj(bc1) != bcj(bc2):
    uniq(grids.unique_boundary_conditions, [v1, v2], False, 'InconsistentBoundaryConditionsError', 'bc-differs', bc1)
  uniq(grids.unique_boundary_conditions, [v1, grids.GridVariable(us[-1], bc1)], True, '', 'bc-same', bc1)
  # round trips
  def rt(k, x, proj, fn):
    e = dict(op='roundtrip', k=k, e='', before=proj(x), after=dict(s=[]))
    try:
      e['after'] = proj(fn(x))
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
  def flat(x):
    leaves, tree = jax.tree_util.tree_flatten(x)
    return jax.tree_util.tree_unflatten(tree, leaves)
  ga = us[0]
  rt('flatten array', ga, cfield, flat)
  rt('flatten variable', v1, field, flat)
  rt('jit array', ga, cfield, jax.jit(lambda x: x))
  rt('jit variable', v1, field, jax.jit(lambda x: x))
  rt('map variable', v1, field, lambda x: jax.tree_util.tree_map(lambda a: a * 1, x))
  try:
    ten = grids.GridArrayTensor([[mk(offs[0]) for _ in range(nd)] for _ in range(nd)])
    ten = r.choice([lambda t: t, lambda t: t.T, lambda t: t.T, lambda t: t[:, ::-1], lambda t: (t + t.T) / 2])(ten)
    tp = lambda t: [[cfield(t[i, j]) for j in range(nd)] for i in range(nd)] + [list(t.shape)]
    rt('flatten tensor', ten, tp, flat)
    rt('jit tensor', ten, tp, jax.jit(lambda x: x))
  except Exception as ex:
    ev.append(dict(op='roundtrip', k='tensor', e=type(ex).__name__, before=0, after=0))
  return ev


def s_bc(r):
  ev = []
  pv = lambda: (dy(r), dy(r))
  def mk(k, fn, t, b):
    e = dict(op='mkbc', k=k, want=dict(t=[[vlib.TYPES[x] for x in p] for p in t], b=[[fx(x) for x in p] for p in b]),
             e='', out=dict(t=[], b=[]), hash=False)
    try:
      bc = fn()
      e['out'] = bcj(bc)
      try:
        hash(bc); e['hash'] = bool(bc == fn())
      except TypeError:
        e['hash'] = False
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
  z = (0., 0.)
  nd = r.choice([1, 2, 3])
  vals = tuple(pv() for _ in range(nd))
  mk('periodic', lambda: boundaries.periodic_boundary_conditions(nd), [(P, P)] * nd, [z] * nd)
  mk('dirichlet', lambda: boundaries.dirichlet_boundary_conditions(nd), [(D, D)] * nd, [z] * nd)
  mk('dirichlet v', lambda: boundaries.dirichlet_boundary_conditions(nd, vals), [(D, D)] * nd, vals)
  mk('neumann', lambda: boundaries.neumann_boundary_conditions(nd), [(N, N)] * nd, [z] * nd)
  mk('neumann v', lambda: boundaries.neumann_boundary_conditions(nd, vals), [(N, N)] * nd, vals)
  n2 = max(nd, 2)
  ct = [(P, P), (D, D), (P, P)][:n2]
  cv = [(None, None), pv(), (None, None)][:n2]
  mk('channel', lambda: boundaries.channel_flow_boundary_conditions(n2), ct, [z] * n2)
  mk('channel v', lambda: boundaries.channel_flow_boundary_conditions(n2, tuple(cv)), ct, cv)
  v = pv()
  mk('per-neu', lambda: boundaries.periodic_and_neumann_boundary_conditions(), [(P, P), (N, N)], [z, z])
  mk('per-neu v', lambda: boundaries.periodic_and_neumann_boundary_conditions(v), [(P, P), (N, N)], [(None, None), v])
  mk('per-dir', lambda: boundaries.periodic_and_dirichlet_boundary_conditions(), [(P, P), (D, D)], [z, z])
  mk('per-dir v', lambda: boundaries.periodic_and_dirichlet_boundary_conditions(v), [(P, P), (D, D)], [(None, None), v])
  mk('per-dir 1', lambda: boundaries.periodic_and_dirichlet_boundary_conditions(periodic_axis=1), [(D, D), (P, P)], [z, z])
  mk('per-dir v1', lambda: boundaries.periodic_and_dirichlet_boundary_conditions(v, periodic_axis=1), [(D, D), (P, P)], [v, (None, None)])
  # pressure and flux boundary conditions
  for _ in range(6):
    nd = r.choice([1, 2, 2, 3])
    g = rand_grid(r, nd, 2, 3)
    per = [r.random() < .5 for _ in range(nd)]
    bcs = []
    for c in range(nd):
      types = [(P, P) if (p if r.random() < .9 else not p) else r.choice([(D, D), (N, N), (D, N), (N, D)]) for p in per]
      bcs.append(rand_bc(r, nd, types))
    u = tuple(grids.GridVariable(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g), b) for b in bcs)
    e = dict(op='pbc', k='pressure bc', nd=nd, ts=[bcj(b)['t'] for b in bcs], e='', out=dict(t=[], b=[]), cons=[], allper=False)
    try:
      e['out'] = bcj(boundaries.get_pressure_bc_from_velocity(u))
      e['cons'] = list(boundaries.consistent_boundary_conditions(*u))
      e['allper'] = bool(boundaries.has_all_periodic_boundary_conditions(*u))
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
  for _ in range(6):
    nd = r.choice([1, 2, 2, 3])
    g = rand_grid(r, nd, 2, 3)
    per = [r.random() < .4 for _ in range(nd)]
    side = lambda p, w: (P, P) if p else r.choice([(D, D), (N, N), (D, N), (N, D)] if w else [(D, D), (N, N), (N, N)])
    ub = boundaries.HomogeneousBoundaryConditions([side(p, True) for p in per])
    if r.random() < .15:
      ub = rand_bc(r, nd, ub.types)
    cbt = [side(p, True) for p in per]
    cb = r.choice([lambda: boundaries.HomogeneousBoundaryConditions(cbt), lambda: rand_bc(r, nd, cbt)])()
    gv = lambda b: grids.GridVariable(grids.GridArray(jnp.zeros(g.shape), g.cell_center, g), b)
    d = r.randrange(nd)
    e = dict(op='fluxbc', k='flux bc', u=bcj(ub), c=bcj(cb), dir=d + 1,
             homog=isinstance(ub, boundaries.HomogeneousBoundaryConditions), e='', out=dict(t=[], b=[]), hash=False)
    try:
      b = boundaries.get_advection_flux_bc_from_velocity_and_scalar(gv(ub), gv(cb), d)
      e['out'] = bcj(b)
      try:
        hash(b); e['hash'] = True
      except TypeError:
        pass
    except Exception as ex:
      e['e'] = type(ex).__name__
    ev.append(e)
  return ev


def run(spec):
  r = rng_for(spec['seed'], 'c03', spec['i'])
  return [s_arith, s_arith, s_arith, s_grid, s_grid, s_tags, s_bc][spec['i'] % 7](r)
