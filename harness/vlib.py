"""Shared harness code: drives jax_cfd from /repo and projects what it returns.

Everything real is projected to fixed point, k / 2**18, the number system of
spec/Fix.tla.  The harness never judges a result; the specification does.
"""
import os, sys, json, math, random, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('JAX_ENABLE_X64', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')

import numpy as np

ONE = 1 << 18
LIM = 1 << 29


def fx(x):
  """One real number in fixed point (None -> 0)."""
  if x is None:
    return 0
  x = float(x)
  if not math.isfinite(x):
    return LIM
  k = int(round(x * ONE))
  return max(-LIM, min(LIM, k))


def arr(a):
  """Array projection: shape, fixed point data, and whether every value fits."""
  a = np.asarray(a)
  if np.iscomplexobj(a):
    raise TypeError('use carr for complex data')
  a = a.astype(np.float64)
  ok = bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a) * ONE < LIM))
  if ok:
    v = np.rint(a * ONE).astype(np.int64).ravel().tolist()
  else:
    v = [fx(x) for x in a.ravel()]
  return dict(s=list(a.shape), v=v, ok=ok)


def carr(a):
  a = np.asarray(a)
  return dict(re=arr(a.real), im=arr(a.imag))


TYPES = dict(periodic='P', dirichlet='D', neumann='N')


def bcj(bc):
  return dict(t=[[TYPES.get(x, str(x)) for x in t] for t in bc.types],
              b=[[fx(x) for x in b] for b in bc.bc_values])


def gridj(g):
  return dict(n=[int(n) for n in g.shape], h=[fx(h) for h in g.step],
              r=[fx(1.0 / h) for h in g.step],
              lo=[fx(d[0]) for d in g.domain], hi=[fx(d[1]) for d in g.domain])


def offj(offset):
  """Location in quarter cells; a location off that lattice becomes 999."""
  out = []
  for o in offset:
    q = float(o) * 4
    out.append(int(round(q)) if abs(q - round(q)) < 1e-9 else 999)
  return out


def dt(a):
  return str(np.asarray(a).dtype) if not hasattr(a, 'dtype') else str(a.dtype)


def field(u, bc=None):
  """GridArray or GridVariable -> JSON field."""
  d = arr(u.data)
  d.update(o=offj(u.offset), g=gridj(u.grid), ty=dt(u.data), e='')
  b = getattr(u, 'bc', None) if bc is None else bc
  d['bc'] = bcj(b) if b is not None else dict(t=[], b=[])
  return d


def err(e):
  """A raised exception as an observable outcome."""
  return dict(s=[0], v=[], ok=False, o=[], e=type(e).__name__, ty='',
              msg=str(e)[:160].encode('ascii', 'replace').decode())


def attempt(fn, proj):
  try:
    r = fn()
    r = proj(r)
  except Exception as e:  # pylint: disable=broad-except
    return None, err(e)
  return r, None


def call(fn, proj=None):
  """Runs fn; returns (value or None, projection-or-error)."""
  try:
    r = fn()
  except Exception as e:  # pylint: disable=broad-except
    return None, err(e)
  try:
    return r, (proj or field)(r)
  except Exception as e:  # result of the wrong kind
    return None, err(e)


def rng_for(seed, *parts):
  return random.Random('|'.join(str(p) for p in (seed,) + parts))


def dy(r, lo=-4.0, hi=4.0, q=4):
  """A dyadic value: multiple of 1/q in [lo, hi]."""
  return r.randint(int(lo * q), int(hi * q)) / q


def dyarr(r, shape, lo=-4.0, hi=4.0, q=4, dtype=np.float64):
  n = int(np.prod(shape)) if len(shape) else 1
  mode = r.random()
  if mode < 0.08:
    vals = [dy(r, lo, hi, q)] * n
  elif mode < 0.16:
    vals = [0.0] * n
    vals[r.randrange(n)] = dy(r, lo, hi, q)
  else:
    vals = [dy(r, lo, hi, q) for _ in range(n)]
  return np.array(vals, dtype=dtype).reshape(shape)


def gen_lines(seed, n, tag=''):
  """A seeded sample of the behaviours TLC generated from the specification."""
  path = os.environ.get('VERIF_GEN')
  if not path:
    return []
  lines = open(path).read().splitlines()
  if len(lines) > n:
    lines = random.Random('gen|%s|%s' % (seed, tag)).sample(lines, n)
  return [json.loads(x) for x in lines]


def unfx(k):
  return k / ONE


def leave_out(r, kw, stated, p=.2):
  """Leaves some options out: (options passed, values then in force)."""
  kw, q = dict(kw), dict(kw)
  for k in list(kw):
    if r.random() < p:
      kw.pop(k)
      q[k] = stated[k]
  return kw, q
