"""worker.py ID TIER SEED PART NPARTS OUT: runs the sessions of one partition."""
import sys, os, json, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
  pid, tier, seed, part, nparts, out = sys.argv[1:7]
  only = sys.argv[7] if len(sys.argv) > 7 else None
  part, nparts = int(part), int(nparts)
  import vlib
  drv = importlib.import_module('drv_' + pid.lower())
  deadline = time.time() + float(os.environ.get('VERIF_DRIVER_BUDGET', '600'))
  specs = list(drv.sessions(int(seed), tier))
  n = 0
  with open(out, 'w') as f:
    for i, spec in enumerate(specs):
      if i % nparts != part:
        continue
      if only is not None and str(i) not in only.split(','):
        continue
      if time.time() > deadline:
        break
      try:
        ev = drv.run(spec)
      except Exception as e:  # an exception the driver did not anticipate
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [x for x in tb if '/jax_cfd/' in x.filename] or tb
        if isinstance(e, (MemoryError, ImportError)):
          raise
        ev = [dict(op='unexpected', k='unexpected', cls=type(e).__name__,
                   msg=str(e)[:200].encode('ascii', 'replace').decode(),
                   at='%s:%s' % (os.path.basename(where[-1].filename), where[-1].name))]
      if not ev:
        continue
      f.write(json.dumps(dict(id=i, ev=ev), separators=(',', ':')) + '\n')
      n += 1
  with open(out + '.done', 'w') as f:
    f.write('%d %d\n' % (n, len(specs)))


if __name__ == '__main__':
  main()
