#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--session N]

Decides one property: (1) TLC checks the specification's own configurations,
(2) the harness drives the real code of /repo and records behaviours,
(3) TLC validates every recorded event against the specification.
Exit 0: held.  Exit 1 with VIOLATION lines: broken.  Other exits: the check
itself failed.
"""
import sys, os, subprocess, json, time, tempfile, shutil, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
HARN = os.path.join(HERE, 'harness')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))

sys.path.insert(0, HERE)
from registry import CHECKS


def env():
  e = dict(os.environ)
  e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
           JAX_ENABLE_X64='1', TF_CPP_MIN_LOG_LEVEL='3',
           XLA_FLAGS='--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 '
                     '--xla_llvm_disable_expensive_passes=true')
  return e


def tlc_cmd(work, cfg, mod, workers, extra=(), mem='2g'):
  return ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + mem, '-Xss64m',
          '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
          '-metadir', tempfile.mkdtemp(dir=work), '-noGenerateSpecTE',
          '-config', cfg] + list(extra) + [mod]


def wait_tlc(p, out):
  """Waits for TLC.  Once it has printed an error and the behaviour leading to
  it, all that is left is a call stack whose reconstruction can take forever."""
  seen = None
  while True:
    try:
      p.wait(timeout=.3 if seen is None else 1)
      return
    except subprocess.TimeoutExpired:
      pass
    if seen is None:
      if os.path.getsize(out) and 'Error:' in open(out, errors='replace').read():
        seen = time.time()
    elif time.time() - seen > 20:
      p.kill()
      p.wait()
      return


def counts(text):
  m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
  if m:
    return int(m.group(1)), int(m.group(2))
  m = re.search(r'(\d+) states checked', text)
  return (int(m.group(1)), int(m.group(1))) if m else (0, 0)


def fail(msg, text=''):
  print('CHECK-ERROR: ' + msg)
  if text:
    print(text[-6000:])
  sys.exit(2)


def main():
  pid = sys.argv[1]
  tier = 'quick'
  only = None
  args = sys.argv[2:]
  while args:
    a = args.pop(0)
    if a == '--session':
      only = args.pop(0)
    elif a in ('quick', 'thorough'):
      tier = a
  seed = int(os.environ.get('VERIF_SEED', '1'))
  conf = CHECKS[pid]
  t0 = time.time()
  work = tempfile.mkdtemp(prefix='verif_%s_' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
  try:
    rc = run(pid, tier, seed, conf, work, only, t0)
  finally:
    shutil.rmtree(work, ignore_errors=True)
  sys.exit(rc)


def run(pid, tier, seed, conf, work, only, t0):
  e = env()
  for f in glob.glob(os.path.join(SPEC, '*')):
    if os.path.isfile(f):
      shutil.copy(f, work)
  problems = []
  # --- 0. behaviours generated by TLC from the specification, to be replayed
  gen_states = 0
  for g in conf.get('gen', {}).get(tier, conf.get('gen', {}).get('quick', [])):
    outp = os.path.join(work, g['out'])
    cmd = tlc_cmd(work, g['cfg'], g['mod'], 1, g.get('extra', []))
    cmd = [c.replace('@SEED@', str(seed)) for c in cmd]
    p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=g.get('timeout', 300))
    lines = []
    for line in p.stdout.splitlines():
      line = line.strip()
      if line.startswith('"GEN ') and line.endswith('"'):
        lines.append(json.loads(line)[4:])
    if not lines or (p.returncode != 0 and not g.get('sim')):
      fail('behaviour generation %s failed' % g['mod'], p.stdout + p.stderr)
    lines = sorted(set(lines))
    with open(outp, 'w') as f:
      f.write('\n'.join(lines) + '\n')
    e['VERIF_GEN'] = outp
    gen_states += counts(p.stdout)[0]
  # --- 1. drivers
  drivers = []
  for part in range(NPROC):
    out = os.path.join(work, 'trace%d.ndjson' % part)
    cmd = [PY, os.path.join(HARN, 'worker.py'), pid, tier, str(seed), str(part), str(NPROC), out]
    if only is not None:
      cmd.append(only)
    drivers.append((subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.DEVNULL,
                                     stderr=open(out + '.err', 'w')), out))
  # --- 2. the specification's own configurations (exhaustive)
  mc = []
  if only is None:
    for c in conf.get('mc', {}).get(tier, conf.get('mc', {}).get('quick', [])):
      p = subprocess.run(tlc_cmd(work, c['cfg'], c['mod'], min(NPROC, c.get('workers', 4)), c.get('extra', []), '4g'),
                         cwd=work, env=e, capture_output=True, text=True, timeout=c.get('timeout', 700))
      gen, dist = counts(p.stdout)
      if p.returncode != 0 or 'No error has been found' not in p.stdout:
        for d, _ in drivers:
          d.kill()
        fail('TLC rejects the specification configuration %s' % c['cfg'], p.stdout + p.stderr)
      mc.append(dict(cfg=c['cfg'], generated=gen, distinct=dist))
  t_mc = time.time() - t0
  for d, out in drivers:
    d.wait()
    if d.returncode != 0 or not os.path.exists(out + '.done'):
      for d2, _ in drivers:
        d2.kill()
      fail('driver failed', open(out + '.err').read())
  t_drv = time.time() - t0
  planned = int(open(drivers[0][1] + '.done').read().split()[1])
  # --- 3. trace validation
  mod = conf.get('trace', 'Trace' + pid)
  tl = []
  sess, events = {}, 0
  ops = {}
  for _, out in drivers:
    lines = open(out).read().splitlines()
    if not lines:
      continue
    n = 0
    for x in lines:
      o = json.loads(x)
      sess[o['id']] = o
      n += len(o['ev'])
      for v in o['ev']:
        ops[v['op']] = ops.get(v['op'], 0) + 1
    events += n
    ee = dict(e, TRACE=out)
    tl.append((subprocess.Popen(tlc_cmd(work, conf.get('trace_cfg', mod + '.cfg'), mod, 1, mem='3g'), cwd=work, env=ee,
                                stdout=open(out + '.tlc', 'w'), stderr=subprocess.STDOUT),
               out, n + len(lines)))
  bad = []
  vstates = vgen = 0
  for p, out, expect in tl:
    wait_tlc(p, out + '.tlc')
    text = open(out + '.tlc').read()
    gen, dist = counts(text)
    vstates += dist
    vgen += gen
    for line in text.splitlines():
      line = line.strip()
      if line.startswith('"BAD '):
        bad.append(json.loads(json.loads(line)[4:]))
    if p.returncode != 0 or dist != expect:
      at = re.findall(r'^/\\ s = (\d+)$', text, re.M), re.findall(r'^/\\ l = (\d+)$', text, re.M)
      if 'Error:' in text and 'OutOfMemory' not in text and at[0] and at[1]:
        # the specification cannot explain the event after the last state reached
        o = json.loads(open(out).read().splitlines()[int(at[0][-1]) - 1])
        if int(at[1][-1]) < len(o['ev']):
          v = o['ev'][int(at[1][-1])]
          bad.append(dict(id=o['id'], l=int(at[1][-1]) + 1, op=v['op'], k=v['k'], bad=['outside-the-specification']))
          if os.environ.get('VERIF_VERBOSE'):
            print(text[-1500:])
          continue
      problems.append('trace validation incomplete (%d of %d states)\n%s' % (dist, expect, text[-5000:]))
  # --- 4. verdict
  known = load_known(pid)
  viol, seen_known = [], {}
  for b in sorted(bad, key=lambda b: (b['id'], b['l'])):
    k = match_known(known, b)
    if k is not None:
      seen_known[k['what']] = seen_known.get(k['what'], 0) + 1
    else:
      viol.append(b)
  for k in known:
    if k['what'] in seen_known:
      print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  if os.environ.get('VERIF_VERBOSE'):
    print('ops', ops)
    print('bad', len(bad), 'times: mc %.1f drivers %.1f total %.1f' % (t_mc, t_drv, time.time() - t0))
    from collections import Counter
    for (o, c), n in Counter((b['op'], ','.join(sorted(b['bad']))) for b in viol).most_common(40):
      print('  ', n, o, c)
  rdir = os.path.join(HERE, 'out')
  if viol:
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, 'replay_%s.json' % pid)
    firsts = viol[:50]
    with open(path, 'w') as f:
      json.dump(dict(property=pid, tier=tier, seed=seed, violations=firsts,
                     rerun='VERIF_SEED=%d python3 check.py %s %s --session %d' % (seed, pid, tier, firsts[0]['id']),
                     session=sess[firsts[0]['id']]), f)
    for b in firsts[:8]:
      print('  failing event: session %d step %d %s [%s] clauses %s' % (
          b['id'], b['l'], b['op'], b['k'], ','.join(sorted(b['bad']))))
    print('VIOLATION property=%s replay=%s' % (pid, path))
  elif problems:
    fail(problems[0])
  samples = []
  for i in sorted(sess)[:: max(1, len(sess) // 4)][:4]:
    samples.append(dict(session=i, events=[dict(op=v['op'], k=v['k']) for v in sess[i]['ev']][:12]))
  if only is None:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get('level', 'model_checking'),
              coverage=dict(
                  states=sum(m['distinct'] for m in mc) + vstates,
                  transitions=sum(m['generated'] for m in mc) + vgen,
                  traces_validated_against_impl=len(sess),
                  samples=samples,
                  spec_configurations=mc,
                  generated_behaviour_states=gen_states,
                  sessions_planned=planned,
                  events_validated=events,
                  events_per_operation=ops,
                  failing_events=len(bad), known_finding_events=sum(seen_known.values())),
              assumptions=conf.get('assumptions', []),
              violations=len(viol), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  return 1 if viol else 0


def load_known(pid):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return []
  return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def match_known(known, b):
  for k in known:
    if re.fullmatch(k['op'], b['op']) and re.fullmatch(k['k'], b['k']) and set(b['bad']) <= set(k['clauses']):
      return k
  return None


if __name__ == '__main__':
  main()
